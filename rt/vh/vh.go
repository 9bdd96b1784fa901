// Package vh is what the harnesses share: options, traces, settling, recording.
package vh

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"math/rand"
	"os"
	"os/signal"
	"runtime"
	"strconv"
	"sync"
	"syscall"
	"testing"
	"testing/synctest"
	"time"

	log "github.com/LogicalOverflow/music-sync/logging"
	"github.com/LogicalOverflow/music-sync/verifrt"
	"github.com/LogicalOverflow/music-sync/verifrt/vmp3"
)

// J is a JSON object.
type J map[string]interface{}

func envInt(k string, d int) int {
	if v, err := strconv.Atoi(os.Getenv(k)); err == nil {
		return v
	}
	return d
}

// Opts of a run, from the environment.
var (
	Seed    = envInt("VERIF_SEED", 1)
	From    = envInt("VH_FROM", 0)
	To      = envInt("VH_TO", 1)
	Profile = os.Getenv("VH_PROFILE")
	OutPath = os.Getenv("VH_OUT")
	Input   = os.Getenv("VH_IN")
	Wall    = envInt("VH_WALL", 60)
)

var (
	omu sync.Mutex
	out *bufio.Writer
	of  *os.File
)

// Emit writes one line of output.
func Emit(v interface{}) {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	omu.Lock()
	defer omu.Unlock()
	if out == nil {
		if OutPath == "" {
			out = bufio.NewWriter(os.Stdout)
		} else {
			of, err = os.Create(OutPath)
			if err != nil {
				panic(err)
			}
			out = bufio.NewWriter(of)
		}
	}
	out.Write(b)
	out.WriteByte('\n')
	out.Flush()
}

// Rand returns the generator of scenario i.
func Rand(i int) *rand.Rand {
	h := int64(0)
	for _, c := range Profile {
		h = h*131 + int64(c)
	}
	return rand.New(rand.NewSource(int64(Seed)*1000003 + int64(i)*7919 + h))
}

var current struct {
	sync.Mutex
	n     int
	began time.Time
}

// realNow is unaffected by simulated time (it is called outside the bubble only).
func watchdog() {
	for {
		time.Sleep(500 * time.Millisecond)
		current.Lock()
		n := current.n
		current.Unlock()
		if n < 0 {
			continue
		}
		wdMu.Lock()
		if n != wdN {
			wdN, wdTicks = n, 0
		} else {
			wdTicks++
		}
		late := wdTicks > 2*Wall
		wdMu.Unlock()
		if late {
			buf := make([]byte, 1<<20)
			buf = buf[:runtime.Stack(buf, true)]
			fmt.Fprintf(os.Stderr, "VH-HANG scenario %d\n%s\n", n, buf)
			os.Exit(3)
		}
	}
}

var (
	wdMu    sync.Mutex
	wdN     int
	wdTicks int
)

var killing bool

// Run runs scenarios From..To-1 in simulated time, one after the other, and ends the process.
// f returns the trace of the scenario.
func Run(t *testing.T, f func(i int, r *rand.Rand) J) {
	run(t, f, true)
}

// RunReal does the same in real time.
func RunReal(t *testing.T, f func(i int, r *rand.Rand) J) {
	run(t, f, false)
}

func run(t *testing.T, f func(i int, r *rand.Rand) J, bubble bool) {
	log.OutputWriter, log.ErrorWriter = io.Discard, io.Discard
	log.DefaultCutoffLevel = log.LevelOff
	ch := make(chan os.Signal, 1) // package os/signal starts its goroutine outside the bubble
	signal.Notify(ch, syscall.SIGUSR2)
	signal.Stop(ch)
	current.n = -1
	verifrt.OnExit = func(code int) {
		fmt.Fprintf(os.Stderr, "VH-EXIT the code under test ended the process with code %d\n", code)
		os.Exit(4)
	}
	go watchdog()
	body := func() {
		for i := From; i < To; i++ {
			current.Lock()
			current.n = i
			current.Unlock()
			Emit(J{"begin": i})
			tr := f(i, Rand(i))
			verifrt.Calm()
			if tr != nil {
				tr["n"] = i
				Emit(tr)
			}
			if bubble && i+1 < To {
				verifrt.Reap()
			}
		}
		Emit(J{"done": true})
		os.Exit(0)
	}
	if bubble {
		synctest.Test(t, func(*testing.T) { body() })
	} else {
		body()
	}
}

// Settle lets everything that can proceed without further simulated time do so.
func Settle() {
	time.Sleep(time.Millisecond)
	synctest.Wait()
}

// Perturb seeds the schedule perturbation for a scenario; sometimes there is none.
func Perturb(r *rand.Rand) {
	switch r.Intn(4) {
	case 0:
		verifrt.Calm()
	case 1:
		verifrt.Schedule(r.Uint64(), 3, 0)
	case 2:
		verifrt.Schedule(r.Uint64(), 4, 60)
	case 3:
		verifrt.Schedule(r.Uint64(), 2, 9)
	}
}

// Seg is a run of consecutive samples: of song Id from Off on, or silence (Id -1), or neither (Id -2).
type Seg struct {
	Id  int `json:"id"`
	Off int `json:"off"`
	N   int `json:"n"`
	At  int `json:"at"`
}

// Runs compacts a stream of samples into runs, cutting at the indices in cuts.
type Runs struct {
	At   int
	Segs []Seg
}

func classify(lo, hi float64) (id, off int) {
	if math.IsNaN(lo) && math.IsNaN(hi) {
		return -1, 0
	}
	if lo < 0 || lo != math.Trunc(lo) || hi != -lo-0.5 {
		return -2, 0
	}
	v := int(lo)
	return v / vmp3.Shift, v % vmp3.Shift
}

// Add appends samples.
func (s *Runs) Add(low, high []float64) {
	for i := range low {
		id, off := classify(low[i], high[i])
		if k := len(s.Segs) - 1; k >= 0 {
			l := &s.Segs[k]
			if l.Id == id && (id < 0 || l.Off+l.N == off) {
				l.N++
				s.At++
				continue
			}
		}
		s.Segs = append(s.Segs, Seg{Id: id, Off: off, N: 1, At: s.At})
		s.At++
	}
}

// Cut splits runs at the given indices.
func (s *Runs) Cut(at map[int]bool) []Seg {
	r := []Seg{}
	for _, g := range s.Segs {
		for {
			cut := -1
			for c := range at {
				if c > g.At && c < g.At+g.N && (cut < 0 || c < cut) {
					cut = c
				}
			}
			if cut < 0 {
				break
			}
			h := g
			h.N = cut - g.At
			r = append(r, h)
			g.N -= h.N
			g.At = cut
			if g.Id >= 0 {
				g.Off += h.N
			}
		}
		r = append(r, g)
	}
	return r
}
