// Operators at their terminals.
package srv

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"sync"
	"time"

	"github.com/LogicalOverflow/music-sync/comm"
	"github.com/LogicalOverflow/music-sync/playback"
	"github.com/LogicalOverflow/music-sync/schedule"
	"github.com/LogicalOverflow/music-sync/verifrt/vcmd"
	"github.com/LogicalOverflow/music-sync/verifrt/vh"
	"github.com/LogicalOverflow/music-sync/verifrt/vnet"
)

var removedRe = regexp.MustCompile(`(?s)removed song (.*?) ?at position`)
var entryRe = regexp.MustCompile(`(?m)^\s*\[ *\d+\] (.*)$`)

func clip(p int) int {
	if p > 1000000 {
		return 1000000
	}
	if p < -1000000 {
		return -1000000
	}
	return p
}

// edits is a scenario about edit commands, some at the same time.
func edits(n int, r *rand.Rand) vh.J {
	vnet.Reset()
	vh.Perturb(r)
	dir := filepath.Join(os.Getenv("VH_DIR"), fmt.Sprintf("s%d", n))
	defer os.RemoveAll(dir)
	os.MkdirAll(dir, 0o755)
	playback.AudioDir = dir
	// groups of songs, named g<group>-<song>.mp3: a pattern for each group
	id := map[string]int{}
	var groups [][]int
	for g := 0; g < 40; g++ {
		var l []int
		size := []int{1, 1, 1, 2, 2, 2, 3, 3, 4 + r.Intn(7)}[r.Intn(9)]
		for i := 0; i < size; i++ {
			name := fmt.Sprintf("g%02d-%d.mp3", g, i)
			id[name] = 100*g + i + 1
			l = append(l, id[name])
			os.WriteFile(filepath.Join(dir, name), nil, 0o644)
		}
		groups = append(groups, l)
	}
	schedule.StreamStartDelay = time.Hour
	l := &log{}
	sender, err := comm.StartServer("srv")
	if err != nil {
		panic(err)
	}
	schedule.Server(sender)
	quiet()
	number := func(s string) int {
		if k, ok := id[strings.TrimSpace(s)]; ok {
			return k
		}
		return -1
	}
	g := 0
	op := func(o int, r *rand.Rand, alone bool) func() {
		p := r.Intn(12) - 3
		if r.Intn(8) == 0 {
			p = []int{1<<63 - 1, -1 << 63, 1<<31 - 1, -1 << 31, 1 << 40}[r.Intn(5)]
		}
		got := []int{}
		end := func() { l.add(vh.J{"k": "end", "o": o, "got": got}) }
		begin := func(op string, songs []int) {
			l.add(vh.J{"k": "begin", "o": o, "op": op, "songs": songs, "p": clip(p)})
		}
		k := r.Intn(7)
		for g < len(groups) && !alone && len(groups[g]) > 3 {
			g++ // too many at the same time
		}
		if g >= len(groups) && k < 4 {
			k += 4
		}
		switch {
		case k < 4:
			songs := groups[g]
			pat := fmt.Sprintf("g%02d-*.mp3", g)
			if len(songs) == 1 && r.Intn(2) == 0 {
				pat = fmt.Sprintf("g%02d-0.mp3", g)
			}
			g++
			if k < 2 {
				return func() { begin("add", songs); vcmd.Exec("queue", pat); end() }
			}
			return func() { begin("insert", songs); vcmd.Exec("queue", pat, fmt.Sprint(p)); end() }
		case k == 4:
			return func() {
				begin("remove", []int{})
				msg, _ := vcmd.Exec("remove", fmt.Sprint(p))
				if m := removedRe.FindStringSubmatch(msg); m == nil {
					got = append(got, -1)
				} else if m[1] != "" {
					got = append(got, number(m[1]))
				}
				end()
			}
		default:
			return func() {
				begin("list", []int{})
				msg, _ := vcmd.Exec("playlist")
				for _, m := range entryRe.FindAllStringSubmatch(msg, -1) {
					got = append(got, number(m[1]))
				}
				end()
			}
		}
	}
	for round := 0; round < 6+r.Intn(8); round++ {
		if r.Intn(2) == 0 {
			op(1, r, true)()
			continue
		}
		var wg sync.WaitGroup
		for o := 1; o <= 2+r.Intn(2); o++ {
			var fs []func()
			for i := 0; i < 1+r.Intn(2); i++ {
				fs = append(fs, op(o, r, false))
			}
			wg.Add(1)
			d := time.Duration(r.Intn(60))
			go func() {
				defer wg.Done()
				time.Sleep(d)
				for _, f := range fs {
					f()
				}
			}()
		}
		wg.Wait()
	}
	return vh.J{"ev": l.ev}
}
