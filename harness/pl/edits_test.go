package pl

import (
	"fmt"
	"math/rand"
	"strconv"
	"sync"
	"time"

	"github.com/LogicalOverflow/music-sync/playback"
	"github.com/LogicalOverflow/music-sync/verifrt/vh"
)

func clip(p int) int {
	if p > 1000000 {
		return 1000000
	}
	if p < -1000000 {
		return -1000000
	}
	return p
}

// edits is a scenario about edits of a playlist, some at the same time.
func edits(n int, r *rand.Rand) vh.J {
	vh.Perturb(r)
	var mu sync.Mutex
	ev := []vh.J{}
	add := func(j vh.J) { mu.Lock(); ev = append(ev, j); mu.Unlock() }
	pl := playback.NewPlaylist(10, []string{}, 1)
	number := func(s string) int {
		k, err := strconv.Atoi(s)
		if err != nil {
			return -1
		}
		return k
	}
	next := 0
	op := func(o int, r *rand.Rand) func() {
		p := r.Intn(12) - 3
		if r.Intn(8) == 0 {
			p = []int{1<<63 - 1, -1 << 63, 1<<31 - 1, -1 << 31, 1 << 40}[r.Intn(5)]
		}
		next++
		f := next
		name := fmt.Sprint(f)
		got := []int{}
		end := func() { add(vh.J{"k": "end", "o": o, "got": got}) }
		begin := func(op string, songs []int) {
			add(vh.J{"k": "begin", "o": o, "op": op, "songs": songs, "p": clip(p)})
		}
		switch r.Intn(7) {
		case 0, 1:
			return func() { begin("add", []int{f}); pl.AddSong(name); end() }
		case 2, 3:
			return func() { begin("insert", []int{f}); pl.InsertSong(name, p); end() }
		case 4:
			return func() {
				begin("remove", []int{})
				if s := pl.RemoveSong(p); s != "" {
					got = append(got, number(s))
				}
				end()
			}
		default:
			return func() {
				begin("list", []int{})
				for _, s := range pl.Songs() {
					got = append(got, number(s))
				}
				end()
			}
		}
	}
	for round := 0; round < 6+r.Intn(8); round++ {
		if r.Intn(2) == 0 {
			op(1, r)()
			continue
		}
		var wg sync.WaitGroup
		for o := 1; o <= 2+r.Intn(2); o++ {
			var fs []func()
			for i := 0; i < 1+r.Intn(2); i++ {
				fs = append(fs, op(o, r))
			}
			wg.Add(1)
			d := time.Duration(r.Intn(60))
			go func() {
				defer wg.Done()
				time.Sleep(d)
				for _, f := range fs {
					f()
				}
			}()
		}
		wg.Wait()
	}
	return vh.J{"ev": ev}
}
