package playback

import (
	"math/rand"
	"sync"
	"testing"
	"time"

	"github.com/LogicalOverflow/music-sync/verifrt/vh"
)

func TestHarness(t *testing.T) {
	vh.Run(t, func(i int, r *rand.Rand) vh.J { return queue(i, r) })
}

const workers = 6

// queue is a scenario about the queue of samples.
func queue(n int, r *rand.Rand) vh.J {
	vh.Perturb(r)
	var mu sync.Mutex
	ev := []vh.J{}
	add := func(j vh.J) { mu.Lock(); ev = append(ev, j); mu.Unlock() }
	size := []int{1, 1, 2, 3, 5}[r.Intn(5)]
	q := newTimedSampleQueue(size)
	base := int64(r.Uint32()) << uint(r.Intn(20))
	id := func(s [2]float64, t int64) int {
		x := int(t - base)
		if s != [2]float64{float64(x), float64(-x) - 0.5} {
			return -1
		}
		return x
	}
	next := 0
	var busy [workers + 1]bool
	// begin lets worker o work off a list of operations.
	begin := func(o int, ops []string, d time.Duration) {
		xs := make([]int, len(ops))
		for i, k := range ops {
			if k == "add" {
				next++
				xs[i] = next
			}
		}
		mu.Lock()
		busy[o] = true
		mu.Unlock()
		go func() {
			time.Sleep(d)
			for i, k := range ops {
				add(vh.J{"k": "begin", "o": o, "op": k, "x": xs[i]})
				got := 0
				switch k {
				case "add":
					q.Add([2]float64{float64(xs[i]), float64(-xs[i]) - 0.5}, base+int64(xs[i]))
				case "remove":
					s, t := q.Remove()
					got = id(s, t)
				case "peek":
					s, t := q.Peek()
					got = id(s, t)
				case "len":
					got = q.Len()
				case "cap":
					got = q.Cap()
				}
				add(vh.J{"k": "end", "o": o, "got": got})
			}
			mu.Lock()
			busy[o] = false
			mu.Unlock()
		}()
	}
	bias := r.Intn(3)
	pick := func() string {
		switch k := r.Intn(12); {
		case k < 4+bias:
			return "add"
		case k < 8:
			return "remove"
		case k < 10:
			return "peek"
		case k < 11:
			return "len"
		}
		return "cap"
	}
	for round := 0; round < 3+r.Intn(6); round++ {
		for o := 1; o <= 1+r.Intn(workers); o++ {
			mu.Lock()
			b := busy[o]
			mu.Unlock()
			if b {
				continue
			}
			var ops []string
			k := pick()
			for i := 0; i < 1+r.Intn(3); i++ {
				ops = append(ops, k)
				if r.Intn(3) == 0 {
					k = pick()
				}
			}
			begin(o, ops, time.Duration(r.Intn(40)))
		}
		if r.Intn(3) > 0 {
			vh.Settle()
			add(vh.J{"k": "still"})
		} else {
			time.Sleep(time.Duration(r.Intn(200)))
		}
	}
	vh.Settle()
	add(vh.J{"k": "still"})
	mu.Lock()
	defer mu.Unlock()
	return vh.J{"cap": size, "ev": append([]vh.J{}, ev...)}
}
