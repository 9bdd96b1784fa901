// Package vmono replaces the monotonic clock: it follows package time, and so
// the simulated clock.
package vmono

import (
	"sync/atomic"
	"time"
)

var skew, drift, since int64

// Base is what Now returned at the start of 2000 (when simulated time begins).
const Base = int64(3600) * 1e9

// SetSkew shifts this process's clock.
func SetSkew(s int64) { atomic.StoreInt64(&skew, s) }

// SetDrift makes this process's clock run faster, or slower, by ppm millionths from now on.
func SetDrift(ppm int64) {
	atomic.StoreInt64(&since, time.Now().UnixNano())
	atomic.StoreInt64(&drift, ppm)
}

func Now() uint64 {
	t := time.Now().UnixNano()
	return uint64(t - 946684800*1e9 + Base + atomic.LoadInt64(&skew) + (t-atomic.LoadInt64(&since))/1000*atomic.LoadInt64(&drift)/1000)
}

func Since(t uint64) time.Duration { return time.Duration(Now() - t) }
