// Package verifrt is the run-time support of the verification harnesses. It is
// added to the module through a build overlay only; nothing of it is part of
// the product.
package verifrt

import (
	"os"
	"runtime"
	"sync/atomic"
	"time"
)

var (
	on     int32
	ctr    uint64
	gosch  uint64 // one in gosch yields calls Gosched; 0: never
	sleepy uint64 // one in sleepy yields sleeps some virtual nanoseconds; 0: never
)

// Schedule seeds the schedule perturbation. gosched and sleep are inverse probabilities.
func Schedule(seed uint64, gosched, sleep uint64) {
	atomic.StoreUint64(&ctr, seed*0x9E3779B97F4A7C15+0x1234567)
	atomic.StoreUint64(&gosch, gosched)
	atomic.StoreUint64(&sleepy, sleep)
	if gosched == 0 && sleep == 0 {
		atomic.StoreInt32(&on, 0)
	} else {
		atomic.StoreInt32(&on, 1)
	}
}

// Calm switches schedule perturbation off.
func Calm() { atomic.StoreInt32(&on, 0) }

func next() uint64 {
	z := atomic.AddUint64(&ctr, 0x9E3779B97F4A7C15)
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

// Y is a yield point, inserted by the instrumenter between statements.
func Y() {
	if atomic.LoadInt32(&on) == 0 {
		return
	}
	slow()
}

func slow() {
	if atomic.LoadInt32(&reaping) != 0 {
		runtime.Goexit()
	}
	r := next()
	if g := atomic.LoadUint64(&gosch); g != 0 && r%g == 0 {
		for i := uint64(0); i <= (r>>40)%3; i++ {
			runtime.Gosched()
		}
	}
	r >>= 20
	if s := atomic.LoadUint64(&sleepy); s != 0 && r%s == 0 {
		time.Sleep(time.Duration(1 + (next())%40))
	}
}

// Slow goroutines: where a function begins, it may wait. How often it did so before is counted for each of them, so
// that those called all the time do not take all there is.
var (
	slowing  int32
	slowMax  int64
	slowLeft int64
	calls    [4096]uint64
)

// Slowly makes up to n calls wait, each up to max.
func Slowly(seed uint64, n int, max time.Duration) {
	for i := range calls {
		atomic.StoreUint64(&calls[i], 0)
	}
	atomic.AddUint64(&ctr, seed)
	atomic.StoreInt64(&slowMax, int64(max))
	atomic.StoreInt64(&slowLeft, int64(n))
	atomic.StoreInt32(&slowing, 1)
}

// Promptly ends that.
func Promptly() { atomic.StoreInt32(&slowing, 0) }

// F is where a function begins.
func F(id int) {
	if atomic.LoadInt32(&slowing) == 0 || atomic.LoadInt32(&reaping) != 0 {
		return
	}
	c := atomic.AddUint64(&calls[id], 1)
	if next()%(6+c/4) != 0 || atomic.AddInt64(&slowLeft, -1) < 0 {
		return
	}
	time.Sleep(time.Duration(1 + next()%uint64(atomic.LoadInt64(&slowMax))))
}

// OnExit, if set, is called instead of ending the process.
var OnExit func(code int)

// Exit replaces os.Exit in the instrumented code.
func Exit(code int) {
	if OnExit == nil {
		os.Exit(code)
	}
	OnExit(code)
	runtime.Goexit()
}

var reaping int32

// Reap ends the goroutines a scenario leaves behind: whatever runs instrumented
// code during the next simulated day stops there.
func Reap() {
	atomic.StoreInt32(&slowing, 0)
	atomic.StoreInt32(&reaping, 1)
	atomic.StoreInt32(&on, 1)
	time.Sleep(24 * time.Hour)
	atomic.StoreInt32(&reaping, 0)
	atomic.StoreInt32(&on, 0)
}
