package client

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"time"

	"github.com/LogicalOverflow/music-sync/comm"
	"github.com/LogicalOverflow/music-sync/schedule"
	"github.com/LogicalOverflow/music-sync/verifrt/vh"
	"github.com/LogicalOverflow/music-sync/verifrt/vmono"
	"github.com/LogicalOverflow/music-sync/verifrt/vscreen"
	"github.com/gdamore/tcell"
	"github.com/golang/protobuf/proto"
)

// track is a song of a stream.
type track struct {
	start, length int
	name          string
	title, artist string
	album         string
	lyrics        [][]word
}

type word struct {
	ts   int
	text string
}

func (t track) info(base int) *comm.NewSongInfo {
	m := &comm.NewSongInfo{FirstSampleOfSongIndex: uint64(base + t.start), SongFileName: t.name, SongLength: int64(t.length)}
	for _, l := range t.lyrics {
		line := &comm.NewSongInfo_SongLyricsLine{}
		for _, a := range l {
			line.Atoms = append(line.Atoms, &comm.NewSongInfo_SongLyricsAtom{Timestamp: int64(a.ts), Caption: a.text})
		}
		m.Lyrics = append(m.Lyrics, line)
	}
	if t.title+t.artist+t.album != "" {
		m.Metadata = &comm.NewSongInfo_SongMetadata{Title: t.title, Artist: t.artist, Album: t.album}
	}
	return m
}

func (t track) event() vh.J {
	ly := []interface{}{}
	for _, l := range t.lyrics {
		line := []interface{}{}
		for _, a := range l {
			line = append(line, vh.J{"ts": a.ts, "text": a.text})
		}
		ly = append(ly, line)
	}
	return vh.J{"start": t.start, "len": t.length, "name": t.name, "title": t.title, "artist": t.artist, "album": t.album, "lyrics": ly}
}

var words = []string{"la", "Na", "ooh", "été", "日本", "한국", "ｶﾅ", "!", "。", "Ω", "", "x-y", "🎵", "かな", "'n'", "\"q\"", "\\", "Ünï"}

// lyrics for ms milliseconds.
func newLyrics(r *rand.Rand, ms int) [][]word {
	var ly [][]word
	mess, round := r.Intn(3) == 0, r.Intn(2) == 0
	at := r.Intn(2000)
	for i := r.Intn(20); i > 0; i-- {
		line := []word{}
		for j := r.Intn(5); j > 0; j-- {
			ts := at
			if mess {
				ts = r.Intn(ms+3000) - 500
			}
			s := words[r.Intn(len(words))]
			if len(line) > 0 && s != "" {
				s = " " + s
			}
			if round {
				ts = ts / 100 * 100
			}
			line = append(line, word{ts, s})
			at += r.Intn(600)
		}
		if r.Intn(3) == 0 {
			at += r.Intn(3000)
		}
		ly = append(ly, line)
	}
	return ly
}

// display is a scenario about what a display shows.
func display(n int, r *rand.Rand) vh.J {
	vh.Perturb(r)
	vscreen.Reset()
	vscreen.Width, vscreen.Height = 70+r.Intn(130), 6+r.Intn(24)
	ms := time.Millisecond
	rate := []int{5, 10, 10, 50, 100, 1000}[r.Intn(6)]
	d := difference(r)
	vmono.SetSkew(r.Int63n(1e15))
	schedule.TimeSyncCycles, schedule.TimeSyncCycleDelay = 1+r.Intn(3), time.Duration(1+r.Intn(5))*ms
	schedule.TimeSyncInterval = time.Hour
	history := []int{5, 5, 1, 3, 12, 0}[r.Intn(6)]
	var args []string
	if history != 5 || r.Intn(2) == 0 {
		args = []string{"--lyrics-history-size", fmt.Sprint(history)}
	}
	joined := make(chan bool, 1)
	h := serve(func(h *host, m proto.Message) {
		if _, ok := m.(*comm.SubscribeChannelRequest); ok {
			joined <- true
		}
		answer(h, m, d)
	})
	t0 := time.Now()
	raw0 := raw()
	run(true, rate, args...)
	<-joined
	settle()
	at := func() int { return int(time.Since(t0) / time.Microsecond) }
	// what is streamed
	long := false // it takes hours
	total := rate * (10 + r.Intn(30))
	if r.Intn(6) == 0 {
		total, long = rate*4500, true
	}
	pos := 0
	if r.Intn(2) == 0 {
		pos = r.Intn(total / 4)
	}
	if long {
		pos = r.Intn(10 * rate)
	}
	var songs []track
	type toggle struct {
		at      int
		playing bool
	}
	var toggles []toggle
	playing := true
	if r.Intn(2) == 0 {
		playing = false
		toggles = append(toggles, toggle{0, false})
	} else if r.Intn(2) == 0 {
		toggles = append(toggles, toggle{0, true})
	}
	span := func(n int) int { return 1 + r.Intn(n) }
	flip := func(p int) {
		if n := len(toggles); n > 0 && toggles[n-1].at == p {
			return
		}
		playing = !playing
		toggles = append(toggles, toggle{p, playing})
	}
	for i := 0; pos < total && i < 8; i++ {
		t := track{start: pos, length: span(total / 2), name: fmt.Sprintf("dir/song%d.mp3", r.Intn(5))}
		if r.Intn(3) == 0 {
			t.length = span(rate)
		}
		if long {
			t.length = rate*3590 + span(20*rate)
			if r.Intn(2) == 0 { // or several
				t.length += rate * 3600 * (1 + r.Intn(4))
			}
		}
		if r.Intn(2) == 0 {
			t.title = fmt.Sprintf("Título %d", r.Intn(4))
		}
		if r.Intn(2) == 0 {
			t.artist = "Ärtist"
		}
		if r.Intn(2) == 0 {
			t.album = "アルバム"
		}
		if r.Intn(3) > 0 {
			t.lyrics = newLyrics(r, t.length*1000/rate)
		}
		songs = append(songs, t)
		left := t.length
		for left > 0 && pos < total {
			run := span(left)
			if long {
				run = span(5 * rate)
			}
			if !playing && !long || r.Intn(2) == 0 { // on for a while, or to the end
				run = span(t.length)
			}
			if playing {
				if run > left {
					run = left
				}
				left -= run
			}
			pos += run
			switch r.Intn(6) {
			case 0: // a jump
				left = 0
			case 1, 2, 3, 4:
				if left > 0 || r.Intn(4) == 0 {
					flip(pos)
				}
			}
		}
		pos += 1 + r.Intn(rate)*r.Intn(2)
		if r.Intn(5) == 0 {
			flip(pos)
			pos++
		}
	}
	base := []int{0, 0, 1 << 40, 1 << 33}[r.Intn(4)]
	if base > 0 { // not from the first sample on
		toggles = append([]toggle{{0, true}}, toggles...)
		if len(toggles) > 1 && toggles[1].at == 0 {
			toggles = toggles[1:]
		}
	}
	size := span(2 * rate)
	// the picture is drawn in the middle of samples
	begin := time.Duration(0)
	if r.Intn(2) == 0 { // it has been going on for a while
		begin = -time.Duration(r.Intn(total)) * time.Second / time.Duration(rate)
	} else {
		begin = time.Duration(r.Intn(5000)) * ms
	}
	if long && r.Intn(3) > 0 { // and has been for an hour
		begin = -3580*time.Second - time.Duration(r.Intn(30000))*ms
	}
	sample := time.Second / time.Duration(rate)
	begin = begin.Truncate(sample) + time.Duration(10+r.Intn(80))*sample/100
	begin = begin.Truncate(time.Microsecond)
	after := func(k int) time.Duration {
		return begin + time.Duration(int64(k)*int64(time.Second)/int64(rate))
	}
	// it is announced
	type ann struct {
		when time.Duration
		m    proto.Message
		ev   vh.J
	}
	var anns []ann
	tell := func(k int, m proto.Message, ev vh.J) {
		x := after(k) - time.Duration(r.Intn(6000))*ms
		switch r.Intn(12) {
		case 0:
			x = after(k) + time.Duration(r.Intn(3000))*ms
		case 1:
			x = 0
		}
		for {
			anns = append(anns, ann{x, m, ev})
			if r.Intn(6) > 0 {
				break
			}
			x += time.Duration(r.Intn(4000)) * ms
		}
	}
	end := total + 2*rate
	gone := after(0) + 40*time.Second
	from := 0
	if r.Intn(2) == 0 {
		from = r.Intn(3)
	}
	for k := from; k*size < end && after(k*size) < gone; k++ {
		if after((k+1)*size) < 0 {
			continue
		}
		x := int64(after(k * size))
		tell(k*size, &comm.ChunkInfo{StartTime: raw0 + d + x, FirstSampleIndex: uint64(base + k*size), ChunkSize: uint64(size)},
			vh.J{"k": "chunk", "start": int(x / 1000), "first": k * size, "n": size})
	}
	for _, s := range songs {
		tell(s.start, s.info(base), vh.J{"k": "song", "s": s.event()})
	}
	for _, p := range toggles {
		b := base
		tell(p.at, &comm.PauseInfo{Playing: p.playing, ToggleSampleIndex: uint64(b + p.at)}, vh.J{"k": "pause", "at": p.at, "on": p.playing})
	}
	for i := r.Intn(4); i > 0; i-- {
		q := r.Intn(201)
		x := time.Duration(r.Int63n(int64(20 * time.Second)))
		anns = append(anns, ann{x, &comm.SetVolumeRequest{Volume: float64(q) / 128}, vh.J{"k": "volume", "q": q}})
	}
	for i := r.Intn(3) * r.Intn(3); i > 0; i-- { // the terminal changes, or somebody presses a key
		a := ann{when: time.Duration(r.Int63n(int64(20 * time.Second)))}
		if r.Intn(3) > 0 {
			a.ev = vh.J{"k": "resize", "width": 70 + r.Intn(130), "height": 6 + r.Intn(24)}
		}
		anns = append(anns, a)
	}
	width, height := vscreen.Width, vscreen.Height
	shown := func(height int) int {
		n := history
		if height < history+7 {
			n = height - 7
		}
		if n < 0 {
			n = 0
		}
		return n
	}
	r.Shuffle(len(anns), func(i, j int) { anns[i], anns[j] = anns[j], anns[i] })
	sort.SliceStable(anns, func(i, j int) bool { return anns[i].when < anns[j].when })
	l := &log{}
	for _, a := range anns {
		if a.when > 60*time.Second {
			break
		}
		time.Sleep(a.when - time.Since(t0))
		// not when a picture is drawn
		for at()%200000 > 199000 || at()%200000 < 1000 {
			time.Sleep(ms)
		}
		ev := vh.J{"w": at()}
		for k, v := range a.ev {
			ev[k] = v
		}
		switch {
		case a.m != nil:
			l.add(ev)
			h.peer.Send(a.m)
		case a.ev != nil:
			vscreen.Resize(ev["width"].(int), ev["height"].(int))
			ev["shown"] = shown(ev["height"].(int))
			ev["width"] = ev["width"].(int) - 2
			l.add(ev)
		default:
			vscreen.Key([]tcell.Key{tcell.KeyRune, tcell.KeyEnter, tcell.KeyEscape, tcell.KeyUp, tcell.KeyCtrlZ, tcell.KeyF1}[r.Intn(6)], []rune("qQ é日")[r.Intn(5)])
		}
		settle()
	}
	time.Sleep(time.Duration(200+r.Intn(2000)) * ms)
	settle()
	ev := l.all()
	done := at()
	for _, p := range vscreen.Take() {
		w := int((p.At - t0.UnixNano()) / 1000)
		if w >= done || len(p.Rows) == 0 {
			continue
		}
		ev = append(ev, drawn(p, w, history))
	}
	sort.SliceStable(ev, func(i, j int) bool { return ev[i]["w"].(int) < ev[j]["w"].(int) })
	if len(h.exit) > 0 {
		ev = append(ev, vh.J{"k": "exit"})
	}
	return vh.J{"rate": rate, "size": size, "base": base, "shown": shown(height), "width": width - 2, "ev": ev}
}

// text is what row y of a picture shows from column x up to column to.
func text(p vscreen.Picture, y, x, to int) string {
	if y < 0 || y >= len(p.Rows) {
		return ""
	}
	var s []rune
	for ; x < to; x++ {
		if p.Rows[y][x] != 0 {
			s = append(s, p.Rows[y][x])
		}
	}
	return strings.TrimRight(string(s), " ")
}

// drawn is what a picture shows.
func drawn(p vscreen.Picture, at, history int) vh.J {
	h, w := len(p.Rows), len(p.Rows[0])
	name := text(p, h-4, 1, w-1)
	vol, num := "", ""
	if i := strings.LastIndex(name, "Volume: "); i >= 0 {
		name, num = strings.TrimRight(name[:i], " "), name[i+len("Volume: "):]
	}
	var hundredths int
	if f := strings.TrimSuffix(num, "%"); f != num {
		var a, b int
		if k, _ := fmt.Sscanf(f, "%d.%02d", &a, &b); k == 2 {
			hundredths, vol = a*100+b, "ok"
		}
	}
	if vol == "" {
		hundredths = -1
	}
	artist, clock := text(p, h-3, 1, w-1), ""
	if i := strings.LastIndex(artist, " "); i >= 0 {
		artist, clock = strings.TrimRight(artist[:i], " "), artist[i+1:]
	} else {
		artist, clock = "", artist
	}
	bar, over := 0, false
	for _, r := range []rune(text(p, h-2, 1, w-1)) {
		switch {
		case over || r != '█' && r != '▌':
			over = true
			bar = -1
		case r == '█':
			bar += 2
		default:
			bar++
			over = true
		}
	}
	st := strings.Trim(text(p, h-5, 1, w-1), "═")
	lines := []string{}
	rows := history
	if h < history+7 {
		rows = h - 7
	}
	for i := 0; i < rows; i++ {
		lines = append(lines, text(p, h-7-i, 1, w-1))
	}
	return vh.J{"k": "draw", "w": at, "at": at, "name": name, "vol": hundredths, "artist": artist, "clock": clock, "bar": bar, "state": st, "lines": lines}
}
