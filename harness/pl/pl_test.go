// Streams from a playlist while operators edit, jump, pause and resume.
package pl

import (
	"context"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/LogicalOverflow/music-sync/playback"
	"github.com/LogicalOverflow/music-sync/verifrt/vh"
)

type file struct {
	Name string `json:"name"`
	Len  int    `json:"len"`
	Ok   bool   `json:"ok"`
}

type cmd struct {
	Op string `json:"op"`
	F  int    `json:"f"`
	P  int    `json:"p"`
	Lo int    `json:"lo"`
	Hi int    `json:"hi"`
}

type ann struct {
	At   int  `json:"at"`
	F    int  `json:"f"`
	Len  int  `json:"len"`
	Same bool `json:"same"`
}

type tog struct {
	At int  `json:"at"`
	P  bool `json:"p"`
}

type read struct {
	N   int `json:"n"`
	Idx int `json:"idx"`
}

// profile weights: what the operator does
type profile struct {
	edit, jump, pause, bad int // out of 10
	ops                    int
	empty                  int // percentage of runs starting empty
}

var profiles = map[string]profile{
	"order":     {edit: 4, jump: 3, pause: 1, bad: 3, ops: 14, empty: 25},
	"brink":     {edit: 4, jump: 3, pause: 0, bad: 1, ops: 6, empty: 20}, // of being empty: one or two songs, which are hardly there
	"integrity": {edit: 1, jump: 2, pause: 1, bad: 0, ops: 5, empty: 0},
	"announce":  {edit: 2, jump: 3, pause: 3, bad: 1, ops: 12, empty: 10},
	"pause":     {edit: 1, jump: 2, pause: 7, bad: 0, ops: 14, empty: 5},
}

func TestHarness(t *testing.T) {
	dir := os.Getenv("VH_DIR")
	playback.AudioDir = dir
	if vh.Profile == "edits" {
		vh.Run(t, func(i int, r *rand.Rand) vh.J { return edits(i, r) })
	}
	vh.Run(t, func(i int, r *rand.Rand) vh.J { return scenario(dir, i, r) })
}

func length(r *rand.Rand) int {
	switch r.Intn(8) {
	case 0:
		return []int{511, 512, 513, 1023, 1024, 1025, 1536}[r.Intn(7)]
	case 1:
		return 512 * (1 + r.Intn(4))
	case 2:
		return r.Intn(3)
	case 3, 4:
		return 1 + r.Intn(600)
	default:
		return 1 + r.Intn(2600)
	}
}

func scenario(dir string, n int, r *rand.Rand) vh.J {
	p := profiles[vh.Profile]
	sub := filepath.Join(dir, fmt.Sprintf("s%d", n))
	os.MkdirAll(sub, 0o755)
	defer os.RemoveAll(sub)
	playback.AudioDir = sub

	brink := vh.Profile == "brink"
	nf := 1 + r.Intn(5)
	files := make([]file, nf)
	var good []int
	for i := range files {
		f := file{Name: fmt.Sprintf("f%d.mp3", i+1), Len: length(r), Ok: r.Intn(10) >= p.bad}
		if brink {
			f.Len = r.Intn(4)
		}
		if f.Ok {
			os.WriteFile(filepath.Join(sub, f.Name), []byte(fmt.Sprintf("SONG %d %d", i+1, f.Len)), 0o644)
			good = append(good, i+1)
		} else if r.Intn(2) == 0 {
			os.WriteFile(filepath.Join(sub, f.Name), []byte("this is no song"), 0o644)
		}
		files[i] = f
	}
	byName := map[string]int{}
	for i, f := range files {
		byName[f.Name] = i + 1
	}
	var initial []string
	initIdx := []int{}
	if r.Intn(100) >= p.empty {
		most := 4
		if brink {
			most = 2
		}
		for k := 0; k < 1+r.Intn(most); k++ {
			i := r.Intn(nf)
			initial = append(initial, files[i].Name)
			initIdx = append(initIdx, i+1)
		}
	}
	buf := []int{1, 2, 16, 64, 500, 512, 1000}[r.Intn(7)]
	nb := []int{1, 7, 100, 512, 700}[r.Intn(5)]
	unit := 1000
	for _, f := range files {
		if f.Ok && f.Len < unit { // keeps the number of songs in one run small
			unit = f.Len
		}
	}
	if brink {
		buf, nb = []int{1, 2, 16}[r.Intn(3)], 1+r.Intn(7)
	} else if unit+nb < 300 {
		nb = []int{300, 512, 700}[r.Intn(3)]
	}
	unit += nb
	vh.Perturb(r)

	pl := playback.NewPlaylist(buf, append([]string{}, initial...), nb)
	var mu sync.Mutex
	var anns []ann
	var togs []tog
	stop := false
	pl.SetNewSongHandler(func(at uint64, name string, l int64) {
		mu.Lock()
		defer mu.Unlock()
		if !stop {
			anns = append(anns, ann{int(at), byName[name], int(l), true})
		}
	})
	pl.SetPauseToggleHandler(func(playing bool, at uint64) {
		mu.Lock()
		defer mu.Unlock()
		if !stop {
			togs = append(togs, tog{int(at), playing})
		}
	})

	var cmds []cmd
	ahead := 520
	if brink {
		ahead = 2
	}
	began, done := 0, 0 // samples asked for and received by the consumer
	do := func(op string, f, q int, call func()) {
		mu.Lock()
		lo := done
		mu.Unlock()
		call()
		mu.Lock()
		cmds = append(cmds, cmd{op, f, q, lo, began + buf + ahead})
		mu.Unlock()
	}
	setPlaying := func(b bool) {
		do(map[bool]string{true: "play", false: "pause"}[b], 0, 0, func() { pl.SetPlaying(b) })
	}
	if brink || r.Intn(4) > 0 {
		setPlaying(true)
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	go pl.StreamLoop(ctx)

	listLen := len(initIdx) // an estimate, to choose positions near the ends
	operate := func() {
		w := r.Intn(p.edit + p.jump + p.pause)
		pos := r.Intn(listLen+4) - 2
		if r.Intn(12) == 0 {
			pos = []int{-1000000, 1000000, 2147483647, -2147483647}[r.Intn(4)]
		}
		f := 1 + r.Intn(nf)
		switch {
		case w < p.edit:
			switch r.Intn(3) {
			case 0:
				do("add", f, 0, func() { pl.AddSong(files[f-1].Name) })
				listLen++
			case 1:
				do("insert", f, pos, func() { pl.InsertSong(files[f-1].Name, pos) })
				listLen++
			case 2:
				do("remove", 0, pos, func() { pl.RemoveSong(pos) })
				if listLen > 0 {
					listLen--
				}
			}
		case w < p.edit+p.jump:
			for k := 0; k < 1+r.Intn(4)*r.Intn(2); k++ {
				q := pos
				if k > 0 {
					q = r.Intn(listLen + 2)
				}
				do("jump", 0, q, func() { pl.SetPos(q) })
			}
		default:
			b := r.Intn(5) < 3
			setPlaying(b)
			if r.Intn(4) == 0 {
				setPlaying(!b)
			}
		}
	}

	var reads []read
	var rec vh.Runs
	consume := func(n int) {
		low, high := make([]float64, n), make([]float64, n)
		mu.Lock()
		began += n
		mu.Unlock()
		at := pl.Fill(low, high)
		mu.Lock()
		done += n
		mu.Unlock()
		reads = append(reads, read{n, int(at)})
		rec.Add(low, high)
	}
	size := func() int {
		switch r.Intn(4) {
		case 0:
			return r.Intn(40)
		case 1:
			return 512
		default:
			return r.Intn(2000)
		}
	}
	idles := 0
	style := r.Intn(2)
	if vh.Profile == "order" && r.Intn(3) == 0 && len(initial) > 0 {
		style = 2
	}
	if brink {
		style = 3
	}
	switch style {
	case 3:
		// songs come and go while the next one is looked for
		setPlaying(true)
		count := len(initial)
		for k := 0; k < p.ops; k++ {
			opDone := make(chan bool)
			or := rand.New(rand.NewSource(r.Int63()))
			go func() {
				defer close(opDone)
				for i := 0; i < 2+or.Intn(6); i++ {
					switch f := 1 + or.Intn(nf); {
					case or.Intn(6) == 0:
						do("jump", 0, i, func() { pl.SetPos(i) })
					case count == 0 || count == 1 && or.Intn(2) == 0:
						do("add", f, 0, func() { pl.AddSong(files[f-1].Name) })
						count++
					default:
						do("remove", 0, 0, func() { pl.RemoveSong(0) })
						count--
					}
					for j := or.Intn(3); j > 0; j-- {
						runtime.Gosched()
					}
				}
			}()
			consume(2 + r.Intn(12))
			<-opDone
			vh.Settle()
			mu.Lock()
			quiet := len(anns) == 0 || rec.At-anns[len(anns)-1].At > 40
			mu.Unlock()
			if quiet { // it was empty: there is a long silence now
				break
			}
		}
	case 0:
		// requests at quiet moments
		for k := 0; k < p.ops; k++ {
			consume(size())
			if len(initIdx) == 0 || rec.At > 30000 {
				if idles < 2 && r.Intn(3) == 0 {
					idles++
					if unit > 550 || len(good) == 0 {
						consume(32768)
					}
				}
			}
			vh.Settle()
			operate()
			if r.Intn(3) == 0 {
				vh.Settle()
			}
		}
	case 2:
		// requests just as a song or a silence ends
		setPlaying(true)
		edge := 0
		for k := 0; k < p.ops && rec.At < 80000; k++ {
			vh.Settle()
			mu.Lock()
			started := false
			for _, a := range anns {
				if a.At >= edge {
					edge, started = a.At+a.Len+nb, true
				}
			}
			mu.Unlock()
			if !started {
				edge += 32768
			}
			if n := edge - buf - r.Intn(4) - rec.At; n > 0 {
				consume(n)
			}
			vh.Settle()
			opDone := make(chan bool)
			or := rand.New(rand.NewSource(r.Int63()))
			go func() {
				defer close(opDone)
				for i := 0; i < 1+or.Intn(4); i++ {
					switch f := 1 + or.Intn(nf); or.Intn(5) {
					case 0, 1:
						do("remove", 0, 0, func() { pl.RemoveSong(0) })
					case 2:
						do("jump", 0, i, func() { pl.SetPos(i) })
					default:
						do("add", f, 0, func() { pl.AddSong(files[f-1].Name) })
					}
					for j := or.Intn(4); j > 0; j-- {
						runtime.Gosched()
					}
				}
			}()
			cr := rand.New(rand.NewSource(r.Int63()))
			consume(cr.Intn(8))
			<-opDone
		}
	default:
		// requests at any moment
		opDone := make(chan bool)
		budget := 3000 + r.Intn(9000)
		or := rand.New(rand.NewSource(r.Int63()))
		go func() {
			defer close(opDone)
			for k := 0; k < p.ops; k++ {
				time.Sleep(time.Duration(or.Intn(4000)) * time.Nanosecond)
				operate2 := operate
				operate2()
			}
		}()
		cr := rand.New(rand.NewSource(r.Int63()))
		for budget > 0 {
			k := cr.Intn(700)
			consume(k)
			budget -= k
			if cr.Intn(3) == 0 {
				time.Sleep(time.Duration(cr.Intn(3000)) * time.Nanosecond)
			}
		}
		<-opDone
	}
	if !brink && len(good) > 0 && r.Intn(5) == 0 && idles < 2 && unit > 550 { // a song arriving after a long silence is played
		consume(33000)
	}
	vh.Settle()
	for k := 0; k < 3; k++ {
		if brink {
			consume(4)
		} else {
			consume(size() + 500)
		}
	}
	vh.Settle()
	total := rec.At
	mu.Lock()
	stop = true
	mu.Unlock()

	cut := map[int]bool{}
	oa, ot := []ann{}, []tog{}
	for _, a := range anns {
		if a.At < total {
			oa = append(oa, a)
			cut[a.At] = true
		}
	}
	for _, g := range togs {
		if g.At < total {
			ot = append(ot, g)
			cut[g.At] = true
		}
	}
	sort.SliceStable(oa, func(i, j int) bool { return oa[i].At < oa[j].At })
	sort.SliceStable(ot, func(i, j int) bool { return ot[i].At < ot[j].At })
	for _, c := range cmds {
		cut[c.Lo] = true
		cut[c.Hi] = true
	}
	if cmds == nil {
		cmds = []cmd{}
	}
	cancel()
	return vh.J{"files": files, "nb": nb, "buf": buf, "init": initIdx, "cmds": cmds, "anns": oa, "togs": ot,
		"segs": rec.Cut(cut), "reads": reads, "names": strings.Join(initial, ",")}
}
