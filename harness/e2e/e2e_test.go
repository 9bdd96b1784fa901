// A server, its operators, two players and a display, all as they are: they
// share nothing but the network, and each has a clock of its own.
package e2e

import (
	"encoding/binary"
	"fmt"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/LogicalOverflow/music-sync/comm"
	server "github.com/LogicalOverflow/music-sync/verifmain/server"
	display "github.com/LogicalOverflow/music-sync/verifnode/di/main/infoer"
	dischedule "github.com/LogicalOverflow/music-sync/verifnode/di/schedule"
	dimono "github.com/LogicalOverflow/music-sync/verifnode/di/verifrt/vmono"
	discreen "github.com/LogicalOverflow/music-sync/verifnode/di/verifrt/vscreen"
	playera "github.com/LogicalOverflow/music-sync/verifnode/pa/main/player"
	paschedule "github.com/LogicalOverflow/music-sync/verifnode/pa/schedule"
	pamono "github.com/LogicalOverflow/music-sync/verifnode/pa/verifrt/vmono"
	paoto "github.com/LogicalOverflow/music-sync/verifnode/pa/verifrt/voto"
	playerb "github.com/LogicalOverflow/music-sync/verifnode/pb/main/player"
	pbschedule "github.com/LogicalOverflow/music-sync/verifnode/pb/schedule"
	pbmono "github.com/LogicalOverflow/music-sync/verifnode/pb/verifrt/vmono"
	pboto "github.com/LogicalOverflow/music-sync/verifnode/pb/verifrt/voto"
	"github.com/LogicalOverflow/music-sync/verifrt"
	"github.com/LogicalOverflow/music-sync/verifrt/vcli"
	"github.com/LogicalOverflow/music-sync/verifrt/vh"
	"github.com/LogicalOverflow/music-sync/verifrt/vmono"
	"github.com/LogicalOverflow/music-sync/verifrt/vmp3"
	"github.com/LogicalOverflow/music-sync/verifrt/vnet"
	"github.com/LogicalOverflow/music-sync/verifrt/vssh"
	"github.com/urfave/cli"
)

func TestHarness(t *testing.T) { vh.Run(t, evening) }

const ms = time.Millisecond

// sound is one write to an audio device.
type sound struct {
	at   int64
	data []byte
}

// node is a player or the display.
type node struct {
	name     string
	main     func()
	skew     func(int64)
	drift    func(int64)
	interval *time.Duration
	cycles   *int
	pace     *time.Duration
	sounds   func() []sound
	up, down time.Duration // how long messages to and from the server take
	jitter   time.Duration // and more, at times
}

func nodes() (pa, pb, di *node) {
	pa = &node{name: "a", main: playera.Main, skew: pamono.SetSkew, drift: pamono.SetDrift, interval: &paschedule.TimeSyncInterval, cycles: &paschedule.TimeSyncCycles, pace: &paschedule.TimeSyncCycleDelay,
		sounds: func() (s []sound) {
			for _, w := range paoto.Take() {
				s = append(s, sound{w.At, w.Data})
			}
			return
		}}
	pb = &node{name: "b", main: playerb.Main, skew: pbmono.SetSkew, drift: pbmono.SetDrift, interval: &pbschedule.TimeSyncInterval, cycles: &pbschedule.TimeSyncCycles, pace: &pbschedule.TimeSyncCycleDelay,
		sounds: func() (s []sound) {
			for _, w := range pboto.Take() {
				s = append(s, sound{w.At, w.Data})
			}
			return
		}}
	di = &node{name: "d", main: display.Main, skew: dimono.SetSkew, drift: dimono.SetDrift, interval: &dischedule.TimeSyncInterval, cycles: &dischedule.TimeSyncCycles, pace: &dischedule.TimeSyncCycleDelay}
	return
}

// link carries what is written to one connection to another one, later.
func link(from, to *vnet.Conn, delay func() time.Duration) {
	type parcel struct {
		at time.Time
		b  []byte
	}
	q := make(chan parcel, 1<<16)
	go func() {
		b := make([]byte, 1<<16)
		for {
			n, err := from.Read(b)
			if n > 0 {
				q <- parcel{time.Now().Add(delay()), append([]byte(nil), b[:n]...)}
			}
			if err != nil {
				close(q)
				return
			}
		}
	}()
	for p := range q {
		time.Sleep(time.Until(p.at))
		if _, err := to.Write(p.b); err != nil {
			from.Close()
			return
		}
	}
	to.Close()
}

// route is the network between a node and the server.
func (n *node) route(to string, r *rand.Rand) {
	l, err := vnet.Listen("tcp", n.name+":1")
	if err != nil {
		panic(err)
	}
	var mu sync.Mutex
	lag := func(d time.Duration) func() time.Duration {
		return func() time.Duration {
			mu.Lock()
			defer mu.Unlock()
			if n.jitter > 0 {
				return d + time.Duration(r.Int63n(int64(n.jitter)))
			}
			return d
		}
	}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			s, err := vnet.Connect(to, 1<<22, 1<<22)
			if err != nil {
				c.Close()
				continue
			}
			go link(c.(*vnet.Conn), s, lag(n.up))
			go link(s, c.(*vnet.Conn), lag(n.down))
		}
	}()
}

// Songs: sample i of song id is 4(i+1), -1024(2id-1), in 1/32768: it can be told at the volumes 1, 1/2 and 1/4.
func coded(id, i int) [2]float64 {
	return [2]float64{float64(4*(i+1)) / 32768, -float64(1024*(2*id-1)) / 32768}
}

// decoded tells song, sample and volume in quarters; song 0: silence, -1: nothing known.
func decoded(lo, hi int) (id, i, vol int) {
	if lo == 0 && hi == 0 {
		return 0, 0, 0
	}
	m, vol := -hi, 4
	for ; m > 0 && m%1024 != 0; m *= 2 {
		if vol /= 2; vol == 0 {
			return -1, 0, 0
		}
		lo *= 2
	}
	if m <= 0 || m/1024%2 == 0 || lo <= 0 || lo%4 != 0 {
		return -1, 0, 0
	}
	return (m/1024 + 1) / 2, lo/4 - 1, vol
}

func sample(b []byte) int { return int(int16(binary.LittleEndian.Uint16(b))) }

type log struct {
	mu sync.Mutex
	ev []vh.J
}

func (l *log) add(j vh.J) { l.mu.Lock(); l.ev = append(l.ev, j); l.mu.Unlock() }

// settle lets everything proceed that takes no time to speak of.
func settle() {
	time.Sleep(200 * time.Microsecond)
	synctest.Wait()
}

func pick(r *rand.Rand, l ...int) int { return l[r.Intn(len(l))] }

// skew is what a clock shows more than another one.
func skew(r *rand.Rand) int64 {
	switch r.Intn(4) {
	case 0:
		return r.Int63n(1e9)
	case 1:
		return r.Int63n(1e13)
	case 2:
		return r.Int63n(1e17)
	}
	return 0
}

func evening(n int, r *rand.Rand) vh.J {
	vnet.Reset()
	verifrt.Calm()
	l := &log{}
	verifrt.OnExit = func(code int) { l.add(vh.J{"k": "exit"}) }
	cli.OsExiter = verifrt.Exit
	stdout := os.Stdout
	os.Stdout, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	defer func() { os.Stdout = stdout }()
	vmp3.Scale = coded
	paoto.Reset()
	pboto.Reset()
	discreen.Reset()
	discreen.Width, discreen.Height = 100, 12
	dir := filepath.Join(os.Getenv("VH_DIR"), fmt.Sprintf("e%d", n))
	os.MkdirAll(filepath.Join(dir, "audio"), 0o755)
	defer os.RemoveAll(dir)
	rate := pick(r, 500, 625, 800, 1000, 1000, 1250, 1600, 2000)
	tick := 1000000 / rate
	songs := 2 + r.Intn(5)
	names := []string{}
	for i := 1; i <= songs; i++ {
		name := fmt.Sprintf("s%d.mp3", i)
		k := rate/2 + r.Intn(5*rate)
		if k > 7000 {
			k = 7000
		}
		os.WriteFile(filepath.Join(dir, "audio", name), []byte(fmt.Sprintf("SONG %d %d\n%40s", i, k, "")), 0o644)
		names = append(names, name)
	}
	os.WriteFile(filepath.Join(dir, "users"), []byte("{}"), 0o644)
	size := rate * pick(r, 1, 2, 5, 10, 13) / 10
	nb := pick(r, 1, 7, rate/20, rate/5, rate)
	chunk := time.Duration(size) * time.Second / time.Duration(rate)
	wait := chunk + time.Duration(1000+r.Intn(3000))*ms
	vmono.SetSkew(skew(r))
	t0 := time.Now()
	zero := int64(vmono.Now())
	at := func() int { return int(time.Since(t0) / time.Microsecond) }
	begin := time.Duration(10+r.Intn(300)) * ms
	os.Args = []string{"server", "--music-dir", filepath.Join(dir, "audio"), "--users-file", filepath.Join(dir, "users"), "--host-key", filepath.Join(dir, "none"), "--logging", "off",
		"--sample-rate", fmt.Sprint(rate), "--stream-chunk-size", fmt.Sprint(size), "--song-break-size", fmt.Sprint(nb), "--stream-delay", wait.String(), "--stream-start-delay", begin.String()}
	go server.Main()
	settle()
	shell := vssh.Open("op")
	settle()
	tell := func(line string) { shell.Type([]byte(line + "\r")); settle() }
	const address = "127.0.0.1:13333"
	tap := vcli.AttachWith(func() *vnet.Conn {
		c, err := vnet.Connect(address, 1<<24, 1<<20)
		if err != nil {
			panic(err)
		}
		return c
	}(), "tap", nil)
	tap.Subscribe(comm.Channel_AUDIO)
	tap.Subscribe(comm.Channel_META)
	settle()
	volume := func(q int) {
		l.add(vh.J{"k": "volume", "at": at(), "q": q})
		tell(fmt.Sprintf("volume %v", float64(q)/4))
	}
	volume(pick(r, 4, 2, 1))
	var list []int
	queue := func() {
		i := r.Intn(songs)
		if r.Intn(3) == 0 && len(list) > 0 {
			p := r.Intn(len(list) + 1)
			tell(fmt.Sprintf("queue %s %d", names[i], p))
			list = append(list[:p], append([]int{i}, list[p:]...)...)
			return
		}
		list = append(list, i)
		tell("queue " + names[i])
	}
	for i := 1 + r.Intn(4); i > 0; i-- {
		queue()
	}
	playing := r.Intn(3) > 0
	if playing {
		tell("resume")
	}
	// there is silence, as there was nothing to play in the beginning
	quiet := time.Duration(32768)*time.Second/time.Duration(rate) + begin + wait
	pa, pb, di := nodes()
	type event struct {
		when time.Duration
		f    func()
	}
	var plan []event
	last := quiet + time.Duration(6000+r.Intn(14000))*ms
	join := func(n *node) func() {
		n.skew(skew(r))
		n.up = time.Duration(r.Intn(60000)) * time.Microsecond
		n.down = n.up
		if r.Intn(2) == 0 {
			n.down = time.Duration(r.Intn(60000)) * time.Microsecond
		}
		if r.Intn(2) == 0 {
			n.jitter = time.Duration(r.Intn(20000)) * time.Microsecond
		}
		n.route(address, rand.New(rand.NewSource(r.Int63())))
		*n.cycles, *n.pace = 1+r.Intn(8), time.Duration(1+r.Intn(30))*ms
		if r.Intn(4) == 0 { // until it knows the time, samples become due
			*n.pace = time.Duration(100+r.Intn(500)) * ms
		}
		*n.interval = time.Hour
		if r.Intn(2) == 0 {
			*n.interval = time.Duration(1000+r.Intn(4000))*ms + time.Duration(*n.cycles)*(*n.pace)
		}
		ppm := int64(0)
		if r.Intn(2) == 0 {
			ppm = r.Int63n(10001) - 5000
		}
		n.drift(ppm)
		return func() {
			d := n.up - n.down
			if d < 0 {
				d = -d
			}
			err := int((d+n.jitter)/2/time.Microsecond) + 1
			setup := time.Duration(*n.cycles)*(*n.pace) + 2*(n.up+n.down+2*n.jitter) + 20*ms
			if ppm != 0 { // so much it goes wrong until it is corrected next
				left := last - time.Since(t0)
				if c := *n.interval + setup*2; c < left {
					left = c
				}
				x := int(int64(left/time.Microsecond) * ppm / 1000000)
				if x < 0 {
					x = -x
				}
				err += x + 1
			}
			l.add(vh.J{"k": "join", "at": at(), "who": n.name, "err": err, "by": at() + int(setup/time.Microsecond), "lag": int((n.down + n.jitter) / time.Microsecond)})
			os.Args = []string{"client", "--address", n.name, "--port", "1", "--sample-rate", fmt.Sprint(rate)}
			go n.main()
			settle()
		}
	}
	moment := func(n *node) time.Duration {
		if n == pa || r.Intn(3) == 0 { // from the beginning
			return quiet - wait - time.Duration(r.Intn(5000))*ms
		}
		return quiet - wait + time.Duration(r.Int63n(int64(last-quiet+wait)))
	}
	for _, n := range []*node{pa, pb, di} {
		n := n
		f := join(n)
		plan = append(plan, event{moment(n), f})
	}
	op := func(what string, id int, line string) {
		l.add(vh.J{"k": "op", "at": at(), "op": what, "id": id})
		tell(line)
	}
	plan = append(plan, event{quiet - wait, func() {
		l.add(vh.J{"k": "op", "at": at(), "op": map[bool]string{true: "resume", false: "pause"}[playing], "id": 0})
	}})
	for i := r.Intn(6); i > 0; i-- { // the operator
		x := quiet - wait + time.Duration(r.Int63n(int64(last-quiet+wait)))
		plan = append(plan, event{x, func() {
			switch r.Intn(6) {
			case 0:
				queue()
			case 1:
				volume(pick(r, 4, 2, 1))
			case 2, 3:
				playing = !playing
				word := map[bool]string{true: "resume", false: "pause"}[playing]
				op(word, 0, word)
			case 4:
				p := r.Intn(len(list))
				op("jump", list[p]+1, fmt.Sprintf("jump %d", p))
			case 5:
				if len(list) > 1 {
					p := r.Intn(len(list))
					op("remove", list[p]+1, fmt.Sprintf("remove %d", p))
					list = append(list[:p:p], list[p+1:]...)
				}
			}
		}})
	}
	sort.SliceStable(plan, func(i, j int) bool { return plan[i].when < plan[j].when })
	for i, e := range plan {
		time.Sleep(e.when - time.Since(t0))
		if i == 0 {
			vh.Perturb(r)
		}
		e.f()
	}
	time.Sleep(last - time.Since(t0))
	settle()
	over := at()
	verifrt.Calm()
	// what happened
	ev := append([]vh.J{}, l.ev...)
	for _, e := range ev {
		if e["at"] == nil {
			e["at"] = over
		}
		e["w"] = e["at"]
	}
	recs, _ := tap.Recs()
	due := func(x int64) int { return int((x - zero) / 1000) }
	first := map[uint64]int{} // when samples are due
	for _, m := range recs {
		if q, ok := m.M.(*comm.QueueChunkRequest); ok && len(first) == 0 {
			first[q.FirstSampleIndex] = due(q.StartTime)
		}
	}
	dueOf := func(g uint64) int {
		for a, x := range first {
			return x + int(int64(g)-int64(a))*tick
		}
		return 0
	}
	for _, m := range recs {
		w := int((m.At - t0.UnixNano()) / 1000)
		switch q := m.M.(type) {
		case *comm.QueueChunkRequest:
			pieces := []vh.J{}
			var p vh.J
			for i := range q.SampleLow {
				lo, hi := q.SampleLow[i], q.SampleHigh[i]
				id, pos := 0, 0
				if !math.IsNaN(lo) || !math.IsNaN(hi) {
					id, pos, _ = decoded(int(lo*32768), int(hi*32768))
				}
				if p != nil && p["id"] == id && p["pos"].(int)+p["n"].(int) == pos {
					p["n"] = p["n"].(int) + 1
					continue
				}
				p = nil
				if id != 0 {
					p = vh.J{"id": id, "pos": pos, "n": 1, "due": due(q.StartTime) + i*tick}
					pieces = append(pieces, p)
				}
			}
			ev = append(ev, vh.J{"k": "chunk", "w": w, "at": w, "start": due(q.StartTime), "n": len(q.SampleLow), "pieces": pieces})
		case *comm.NewSongInfo:
			id := 0
			for i, s := range names {
				if s == q.SongFileName {
					id = i + 1
				}
			}
			ev = append(ev, vh.J{"k": "song", "w": w, "at": w, "due": dueOf(q.FirstSampleOfSongIndex), "id": id})
		case *comm.PauseInfo:
			ev = append(ev, vh.J{"k": "toggle", "w": w, "at": w, "due": dueOf(q.ToggleSampleIndex), "on": q.Playing})
		}
	}
	for _, p := range []*node{pa, pb} {
		ev = append(ev, heard(p, t0, tick, over)...)
	}
	for _, p := range discreen.Take() {
		if w := int((p.At - t0.UnixNano()) / 1000); w < over && len(p.Rows) > 0 {
			ev = append(ev, shown(p, w, names))
		}
	}
	when := func(e vh.J) int {
		if x, ok := e["last"]; ok {
			return x.(int)
		}
		return e["w"].(int)
	}
	sort.SliceStable(ev, func(i, j int) bool { return when(ev[i]) < when(ev[j]) })
	ev = append(ev, vh.J{"k": "over", "at": over})
	us := func(d time.Duration) int { return int(d / time.Microsecond) }
	return vh.J{"rate": rate, "tick": tick, "wait": us(wait), "ahead": (rate + 512 + 2*size) * tick, "gap": nb * tick, "ev": ev}
}

// heard is what comes out of a player.
func heard(p *node, t0 time.Time, tick, over int) []vh.J {
	ev := []vh.J{}
	var cur vh.J
	for _, s := range p.sounds() {
		w := int((s.at - t0.UnixNano()) / 1000)
		if w >= over {
			break
		}
		for i := 0; i+3 < len(s.data); i += 4 {
			id, pos, vol := decoded(sample(s.data[i:]), sample(s.data[i+2:]))
			x := w + i/4*tick
			if id == 0 {
				cur = nil
				continue
			}
			if cur != nil && cur["id"] == id && cur["vol"] == vol && cur["pos"].(int)+cur["n"].(int) == pos {
				if d := cur["at"].(int) + cur["n"].(int)*tick - x; -tick <= d && d <= tick {
					cur["n"] = cur["n"].(int) + 1
					cur["last"] = w
					continue
				}
			}
			cur = vh.J{"k": "play", "who": p.name, "w": w, "last": w, "at": x, "id": id, "pos": pos, "n": 1, "vol": vol}
			ev = append(ev, cur)
		}
	}
	return ev
}

// shown is what a picture shows.
func shown(p discreen.Picture, at int, names []string) vh.J {
	row := func(y int) string {
		var s []rune
		for _, c := range p.Rows[y] {
			if c != 0 {
				s = append(s, c)
			}
		}
		return string(s)
	}
	h := len(p.Rows)
	j := vh.J{"k": "show", "w": at, "at": at, "who": "d", "song": -1, "sec": -1, "state": "", "vol": -1}
	line := row(h - 4)
	for i, n := range append([]string{"None"}, names...) {
		if strings.Contains(line, n) {
			j["song"] = i
		}
	}
	if i := strings.Index(line, "Volume: "); i >= 0 {
		var a, b int
		if k, _ := fmt.Sscanf(line[i+len("Volume: "):], "%d.%02d%%", &a, &b); k == 2 {
			j["vol"] = a*100 + b
		}
	}
	if f := strings.Fields(strings.Trim(row(h-3), "║ ")); len(f) > 0 {
		var a, b int
		if k, _ := fmt.Sscanf(f[len(f)-1], "%d:%d/", &a, &b); k == 2 {
			j["sec"] = a*60 + b
		}
	}
	for _, s := range []string{"Paused", "Playing"} {
		if strings.Contains(row(h-5), s) {
			j["state"] = s
		}
	}
	return j
}
