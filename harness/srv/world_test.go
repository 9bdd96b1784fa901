// A whole server in simulated time, with an operator, observed by its clients.
package srv

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/LogicalOverflow/music-sync/comm"
	"github.com/LogicalOverflow/music-sync/playback"
	"github.com/LogicalOverflow/music-sync/schedule"
	"github.com/LogicalOverflow/music-sync/timing"
	server "github.com/LogicalOverflow/music-sync/verifmain/server"
	"github.com/LogicalOverflow/music-sync/verifrt"
	"github.com/LogicalOverflow/music-sync/verifrt/vcli"
	"github.com/LogicalOverflow/music-sync/verifrt/vcmd"
	"github.com/LogicalOverflow/music-sync/verifrt/vh"
	"github.com/LogicalOverflow/music-sync/verifrt/vnet"
	"github.com/urfave/cli"
)

type atom struct {
	T int64  `json:"timestamp"`
	C string `json:"caption"`
}

type song struct {
	Name string `json:"name"`
	Len  int    `json:"len"`
	Ok   bool   `json:"ok"`
	tags [3]string
	lyr  [][]atom
}

// id3 is an ID3v2.3 tag with title, artist and album.
func id3(t [3]string) []byte {
	var b []byte
	for i, id := range []string{"TIT2", "TPE1", "TALB"} {
		if t[i] == "" {
			continue
		}
		text := []byte{1, 0xff, 0xfe}
		for _, c := range t[i] {
			text = append(text, byte(c), byte(c>>8))
		}
		n := len(text)
		b = append(b, id...)
		b = append(b, byte(n>>24), byte(n>>16), byte(n>>8), byte(n), 0, 0)
		b = append(b, text...)
	}
	n := len(b)
	return append([]byte{'I', 'D', '3', 3, 0, 0, byte(n >> 21 & 127), byte(n >> 14 & 127), byte(n >> 7 & 127), byte(n & 127)}, b...)
}

func word(r *rand.Rand) string {
	return []string{"la", "Straße ", "", "лето", " x", "\"q\"", "na na", "夏", "a\\b", "e\u0301", "..."}[r.Intn(11)]
}

func writeSong(dir string, id int, s *song, r *rand.Rand) {
	p := filepath.Join(dir, s.Name)
	os.MkdirAll(filepath.Dir(p), 0o755)
	if !s.Ok {
		if r.Intn(2) == 0 {
			os.WriteFile(p, []byte("this is no song"), 0o644)
		}
		return
	}
	var b []byte
	if r.Intn(3) > 0 {
		for i := range s.tags {
			if r.Intn(4) > 0 {
				s.tags[i] = word(r) + "t" + word(r)
			}
		}
		if s.tags != [3]string{} {
			b = id3(s.tags)
		}
	}
	b = append(b, fmt.Sprintf("SONG %d %d\n                                ", id, s.Len)...)
	os.WriteFile(p, b, 0o644)
	switch r.Intn(6) {
	case 0: // none
	case 1:
		bad := []string{"", "{", "[[{\"timestamp\":1,\"caption\":\"a\"}],", "[[{\"timestamp\":1,\"caption\":\"a\"}],[{\"timestamp\":\"x\"}]]",
			"[[{\"timestamp\":1,\"caption\":5}]]", "{\"timestamp\":1}", "[1]", "no json", "[[{\"timestamp\":7,\"caption\":\"a\"}] [] ]"}
		os.WriteFile(p+".json", []byte(bad[r.Intn(len(bad))]), 0o644)
	case 2:
		os.MkdirAll(p+".json", 0o755)
	default:
		s.lyr = [][]atom{}
		t := int64(r.Intn(500)) - 50
		for i := 0; i < r.Intn(6); i++ {
			l := []atom{}
			for j := 0; j < r.Intn(4); j++ {
				t += int64(r.Intn(400))
				l = append(l, atom{t, word(r)})
			}
			s.lyr = append(s.lyr, l)
		}
		j, _ := json.MarshalIndent(s.lyr, "", []string{"", "  "}[r.Intn(2)])
		os.WriteFile(p+".json", j, 0o644)
	}
}

func (s *song) described(m *comm.NewSongInfo) bool {
	if md := m.Metadata; md == nil {
		if s.tags != [3]string{} {
			return false
		}
	} else if s.tags != [3]string{md.Title, md.Artist, md.Album} {
		return false
	}
	if len(m.Lyrics) != len(s.lyr) {
		return false
	}
	for i, l := range s.lyr {
		if len(m.Lyrics[i].Atoms) != len(l) {
			return false
		}
		for j, a := range l {
			if w := m.Lyrics[i].Atoms[j]; w.Timestamp != a.T || w.Caption != a.C {
				return false
			}
		}
	}
	return true
}

type op struct {
	Op string `json:"op"`
	F  int    `json:"f"`
	P  int    `json:"p"`
	Lo int    `json:"lo"`
	Hi int    `json:"hi"`
}

type world struct {
	r          *rand.Rand
	dir        string
	songs      []song
	rate, size int
	t          time.Duration // of a chunk
	nb         int
	delay, sd  time.Duration
	began      time.Time // when streaming begins
	mon        *vcli.Client
	mu         sync.Mutex
	ops        []op
	unit       int
	addr       string
	base       int64 // the server's clock when it starts
	command    bool  // started as the command
}

func length(r *rand.Rand) int {
	switch r.Intn(8) {
	case 0:
		return []int{511, 512, 513, 1023, 1024, 1025, 1536}[r.Intn(7)]
	case 1:
		return 512 * (1 + r.Intn(4))
	case 2:
		return r.Intn(3)
	case 3, 4:
		return 1 + r.Intn(600)
	default:
		return 1 + r.Intn(2600)
	}
}

// newWorld makes a music directory and a configuration, and connects the monitor.
func newWorld(n int, r *rand.Rand, bad int) *world {
	w := &world{r: r, dir: filepath.Join(os.Getenv("VH_DIR"), fmt.Sprintf("s%d", n))}
	os.MkdirAll(w.dir, 0o755)
	w.songs = make([]song, 1+r.Intn(5))
	w.unit = 1000
	for i := range w.songs {
		s := &w.songs[i]
		s.Name = fmt.Sprintf("%sf%d.mp3", []string{"", "", "sub/", "süb dir/"}[r.Intn(4)], i+1)
		s.Len, s.Ok = length(r), r.Intn(10) >= bad
		writeSong(w.dir, i+1, s, r)
		if s.Ok && s.Len < w.unit {
			w.unit = s.Len
		}
	}
	w.nb = []int{1, 7, 100, 512, 700}[r.Intn(5)]
	if w.unit+w.nb < 300 {
		w.nb = []int{300, 512, 700}[r.Intn(3)]
	}
	w.unit += w.nb
	w.rate = []int{100, 512, 1000}[r.Intn(3)]
	w.size = []int{37, 100, 512, 1000, 1 + r.Intn(1500), 1 + r.Intn(1500)}[r.Intn(6)]
	w.t = []time.Duration{(time.Duration(w.size) * time.Second / time.Duration(w.rate)).Truncate(time.Microsecond), 20 * time.Millisecond, 5432101}[r.Intn(3)]
	if w.t < 5*time.Millisecond {
		w.t = 5 * time.Millisecond
	}
	w.addr = "srv"
	if r.Intn(3) == 0 { // the server command, which computes the time of a chunk itself
		size, rate := w.size, w.rate
		if r.Intn(2) == 0 {
			rate = []int{700, 300, 441, 900, 1100}[r.Intn(5)]
			size = rate * (1 + r.Intn(2))
		}
		if t := time.Duration(size) * time.Second; t%time.Duration(rate) == 0 && t/time.Duration(rate)%time.Microsecond == 0 && t/time.Duration(rate) >= 5*time.Millisecond {
			w.rate, w.size, w.t, w.command = rate, size, t/time.Duration(rate), true
			w.addr = fmt.Sprintf("%s:%d", []string{"127.0.0.1", "localhost", "0.0.0.0"}[r.Intn(3)], 1000+r.Intn(20000))
		}
	}
	w.delay = time.Duration(r.Intn(20000)) * time.Millisecond
	w.sd = time.Duration(1+r.Intn(5000)) * time.Millisecond
	if w.command {
		w.sd += 50 * time.Millisecond
	}
	if w.command {
		return w
	}
	playback.AudioDir = w.dir
	schedule.SampleRate, schedule.StreamChunkSize, schedule.StreamChunkTime = w.rate, w.size, w.t
	schedule.NanBreakSize, schedule.StreamDelay, schedule.StreamStartDelay = w.nb, w.delay, w.sd
	return w
}

func (w *world) done() {
	os.RemoveAll(w.dir)
	os.Remove(w.dir + "-users")
}

// start starts the server.
func (w *world) start(early func()) {
	join := func() {
		var err error
		if w.mon, err = vcli.Join(w.addr, "monitor", 1<<24); err != nil {
			panic(err)
		}
		w.mon.Subscribe(comm.Channel_AUDIO)
		w.mon.Subscribe(comm.Channel_META)
		vh.Settle()
		if early != nil {
			early()
		}
	}
	if w.command {
		os.WriteFile(w.dir+"-users", []byte("{}"), 0o644)
		i := strings.LastIndex(w.addr, ":")
		args := [][]string{{"--address", w.addr[:i]}, {"-p", w.addr[i+1:]}, {"--music-dir", w.dir}, {"--users", w.dir + "-users"}, {"--logging", "off"},
			{"--host-key", w.dir + "-none"}, {"--stream-chunk-size", fmt.Sprint(w.size)}, {"--sample-rate", fmt.Sprint(w.rate)}, {"--song-break-size", fmt.Sprint(w.nb)},
			{"--stream-delay", w.delay.String()}, {"--stream-start-delay", w.sd.String()}}
		w.r.Shuffle(len(args), func(i, j int) { args[i], args[j] = args[j], args[i] })
		os.Args = []string{"server"}
		for _, a := range args {
			os.Args = append(os.Args, a...)
		}
		cli.OsExiter = verifrt.Exit
		w.base = timing.GetSyncedTime()
		w.began = time.Now().Add(w.sd)
		go server.Main()
		time.Sleep(500 * time.Microsecond)
		join()
		return
	}
	sender, err := comm.StartServer("srv")
	if err != nil {
		panic(err)
	}
	join()
	w.base = timing.GetSyncedTime()
	w.began = time.Now().Add(w.sd)
	schedule.Server(sender)
}

// filled is the number of chunks surely complete; asked the number possibly begun.
func (w *world) filled() int {
	rs, _ := w.mon.Recs()
	n := 0
	for _, m := range rs {
		if _, ok := m.M.(*comm.QueueChunkRequest); ok {
			n++
		}
	}
	return n
}

func (w *world) asked() int {
	d := time.Since(w.began)
	if d < 0 {
		return 0
	}
	return int(d/w.t) + 1
}

// do runs a command that shapes the stream.
func (w *world) do(kind string, f, p int, name string, args ...string) (string, bool) {
	lo := w.filled() * w.size
	msg, ok := vcmd.Exec(name, args...)
	hi := w.asked()*w.size + w.rate + 520
	w.mu.Lock()
	w.ops = append(w.ops, op{kind, f, p, lo, hi})
	w.mu.Unlock()
	return msg, ok
}

func (w *world) setPlaying(b bool) {
	w.do(map[bool]string{true: "play", false: "pause"}[b], 0, 0, map[bool]string{true: "resume", false: "pause"}[b])
}

// stream describes what the monitor received in the terms of Stream.
func (w *world) stream() vh.J {
	rs, _ := w.mon.Recs()
	var rec vh.Runs
	type ann struct {
		At   int  `json:"at"`
		F    int  `json:"f"`
		Len  int  `json:"len"`
		Same bool `json:"same"`
	}
	type tog struct {
		At int  `json:"at"`
		P  bool `json:"p"`
	}
	type read struct {
		N   int `json:"n"`
		Idx int `json:"idx"`
	}
	chunks := []*comm.QueueChunkRequest{}
	for _, m := range rs {
		if c, ok := m.M.(*comm.QueueChunkRequest); ok {
			chunks = append(chunks, c)
		}
	}
	sort.SliceStable(chunks, func(i, j int) bool { return chunks[i].ChunkId < chunks[j].ChunkId })
	reads := []read{}
	for _, c := range chunks {
		reads = append(reads, read{len(c.SampleLow), int(c.FirstSampleIndex)})
		hi := c.SampleHigh
		for len(hi) < len(c.SampleLow) {
			hi = append(hi, 0.25)
		}
		rec.Add(c.SampleLow, hi)
	}
	total := rec.At
	cut := map[int]bool{}
	anns, togs := []ann{}, []tog{}
	for _, m := range rs {
		switch x := m.M.(type) {
		case *comm.NewSongInfo:
			a := ann{At: int(x.FirstSampleOfSongIndex), Len: int(x.SongLength)}
			for i := range w.songs {
				if w.songs[i].Name == x.SongFileName {
					a.F = i + 1
					a.Same = w.songs[i].described(x)
				}
			}
			if a.At < total {
				anns = append(anns, a)
				cut[a.At] = true
			}
		case *comm.PauseInfo:
			if g := (tog{int(x.ToggleSampleIndex), x.Playing}); g.At < total {
				togs = append(togs, g)
				cut[g.At] = true
			}
		}
	}
	sort.SliceStable(anns, func(i, j int) bool { return anns[i].At < anns[j].At })
	sort.SliceStable(togs, func(i, j int) bool { return togs[i].At < togs[j].At })
	w.mu.Lock()
	defer w.mu.Unlock()
	ops := append([]op{}, w.ops...)
	for _, c := range ops {
		cut[c.Lo], cut[c.Hi] = true, true
	}
	return vh.J{"files": w.songs, "nb": w.nb, "buf": w.rate, "init": []int{}, "cmds": ops, "anns": anns, "togs": togs,
		"segs": rec.Cut(cut), "reads": reads}
}

// operate does something random that shapes the stream.
func (w *world) operate(edit, jump, pause int, list *int) {
	r := w.r
	pos := r.Intn(*list+4) - 2
	if r.Intn(12) == 0 {
		pos = []int{-1000000, 1000000, 2147483647, -2147483647}[r.Intn(4)]
	}
	f := 1 + r.Intn(len(w.songs))
	at := fmt.Sprint(pos)
	exists := func() bool {
		_, err := os.Stat(filepath.Join(w.dir, w.songs[f-1].Name))
		return err == nil
	}
	switch k := r.Intn(edit + jump + pause); {
	case k < edit && (r.Intn(3) > 0 || *list == 0):
		if !exists() {
			return // cannot be queued
		}
		if r.Intn(2) == 0 {
			w.do("add", f, 0, "queue", w.songs[f-1].Name)
		} else {
			w.do("insert", f, pos, "queue", w.songs[f-1].Name, at)
		}
		*list++
	case k < edit:
		w.do("remove", 0, pos, "remove", at)
		*list--
	case k < edit+jump:
		for j := 0; j < 1+r.Intn(4)*r.Intn(2); j++ {
			if j > 0 {
				pos = r.Intn(*list + 2)
			}
			w.do("jump", 0, pos, "jump", fmt.Sprint(pos))
		}
	default:
		b := r.Intn(5) < 3
		w.setPlaying(b)
		if r.Intn(4) == 0 {
			w.setPlaying(!b)
		}
	}
}

// chunks is a scenario about the stream as clients get it.
func chunks(n int, r *rand.Rand) vh.J {
	vnet.Reset()
	vh.Perturb(r)
	w := newWorld(n, r, map[string]int{"announce": 2, "chunks": 1}[vh.Profile])
	defer w.done()
	l := &log{}
	unit := time.Microsecond
	if w.t%unit != 0 {
		unit = time.Nanosecond
	}
	var start0 int64
	var smu sync.Mutex
	begun := false
	watch := func(c int) func(interface{}) {
		return func(m interface{}) {
			smu.Lock()
			defer smu.Unlock()
			at := int(time.Since(w.began) / unit)
			rel := func(s int64) (int, bool) {
				d := s - start0
				return int(d / int64(unit)), d%int64(unit) == 0
			}
			switch x := m.(type) {
			case *comm.QueueChunkRequest:
				if !begun {
					begun = true
					start0 = x.StartTime
				}
				s, whole := rel(x.StartTime)
				l.add(vh.J{"k": "audio", "c": c, "id": int(x.ChunkId), "start": s, "whole": whole, "first": int(x.FirstSampleIndex),
					"n": len(x.SampleLow), "m": len(x.SampleHigh), "at": at})
			case *comm.ChunkInfo:
				if !begun { // the description came before the audio
					begun = true
					start0 = x.StartTime
				}
				s, whole := rel(x.StartTime)
				l.add(vh.J{"k": "info", "c": c, "start": s, "whole": whole, "first": int(x.FirstSampleIndex), "n": int(x.ChunkSize), "at": at})
			}
		}
	}
	w.start(func() {
		f := watch(1)
		w.mon.Watch(func(m interface{}) { f(m) })
	})
	list := 0
	var others []*vcli.Client
	nc := 1
	join := func() {
		nc++
		c := nc
		f := watch(c)
		conn, err := vnet.Connect(w.addr, 1<<24, 1<<20)
		if err != nil {
			panic(err)
		}
		k := vcli.Attach(conn, fmt.Sprint(c))
		k.Watch(func(m interface{}) { f(m) })
		others = append(others, k)
		k.Subscribe(comm.Channel(r.Intn(2)))
		if r.Intn(2) == 0 {
			k.Subscribe(comm.Channel(r.Intn(2)))
		}
		if r.Intn(4) == 0 { // stops reading; what it gets later is nobody's concern
			k.Stall()
			k.Watch(nil)
		}
	}
	edit, jump, pause, ops := 4, 2, 3, 12
	if vh.Profile == "chunks" {
		edit, jump, pause, ops = 3, 1, 1, 6
	}
	if r.Intn(5) > 0 {
		for k := 0; k < 1+r.Intn(4); k++ {
			w.operate(1, 0, 0, &list)
		}
		w.setPlaying(true)
	}
	limit := 9000
	if limit > 200*w.size {
		limit = 200 * w.size
	}
	time.Sleep(time.Until(w.began))
	// with goroutines that take their time, what clients get is right but when they get it is anybody's guess
	slow := r.Intn(4) == 0
	longest := 4 * w.t
	if longest > time.Second {
		longest = time.Second
	}
	if slow {
		verifrt.Slowly(r.Uint64(), 30, longest)
	}
	for k := 0; k < ops; k++ {
		max := (limit - w.filled()*w.size) / w.size / 2
		if max < 1 {
			max = 1
		}
		if max > 12 {
			max = 12
		}
		d := time.Duration(r.Intn(max+1)) * w.t
		switch r.Intn(3) {
		case 0: // around a tick
			next := w.began.Add(time.Duration(w.asked()) * w.t)
			time.Sleep(time.Until(next) + d + time.Duration(r.Intn(60)-10))
		case 1:
			time.Sleep(d + time.Duration(r.Intn(int(w.t))))
		default:
			time.Sleep(d)
			vh.Settle()
		}
		if vh.Profile == "chunks" && r.Intn(3) == 0 && nc < 5 {
			join()
			continue
		}
		w.operate(edit, jump, pause, &list)
	}
	end := 1 + 2000/w.size
	if end > 60 {
		end = 60
	}
	time.Sleep(time.Duration(end) * w.t)
	if slow {
		verifrt.Promptly()
		time.Sleep(longest)
	}
	time.Sleep(time.Until(w.began.Add(time.Duration(w.asked())*w.t - w.t/2)))
	vh.Settle()
	if w.t < 10*time.Millisecond {
		vh.Settle()
	}
	j := w.stream()
	smu.Lock()
	l.add(vh.J{"k": "over", "at": int(time.Since(w.began) / unit)})
	j["ev"] = append([]vh.J{}, l.ev...)
	if slow {
		j["ev"] = []vh.J{}
	}
	smu.Unlock()
	j["T"], j["S"], j["tol"] = int(w.t/unit), w.size, int(2*time.Millisecond/unit)
	j["lead"] = int((start0 - w.base - int64(w.sd) - int64(w.delay)) / 1000) // microseconds the first start is off
	j["nc"] = nc
	for _, k := range others {
		k.Resume()
	}
	return j
}
