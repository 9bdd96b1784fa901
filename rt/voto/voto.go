// Package voto replaces the audio device by one that records what is written
// to it and when, and plays in simulated time.
package voto

import (
	"errors"
	"sync"
	"time"
)

// Write is one write to the device.
type Write struct {
	At   int64 // simulated time (UnixNano) at which the write began
	Data []byte
}

var (
	mu sync.Mutex
	// Writes is everything written since Reset.
	writes []Write
	// OpenDelay is how long opening the device takes; OpenError makes it fail.
	OpenDelay time.Duration
	OpenError bool
	stallAt   int64
	stallFor  int64
	stalled   int64
	stallEnd  int64
)

// Reset forgets everything recorded.
func Reset() {
	mu.Lock()
	writes, stallAt, stallFor, stalled, stallEnd, OpenDelay, OpenError = nil, 0, 0, 0, 0, 0, false
	mu.Unlock()
}

// Stall makes the first write at or after time at (UnixNano) take d longer.
func Stall(at int64, d time.Duration) {
	mu.Lock()
	stallAt, stallFor = at, int64(d)
	mu.Unlock()
}

// Stalled is when the device stalled, from and to (UnixNano), 0: not yet.
func Stalled() (int64, int64) {
	mu.Lock()
	defer mu.Unlock()
	return stalled, stallEnd
}

// Take returns everything recorded.
func Take() []Write {
	mu.Lock()
	defer mu.Unlock()
	return writes
}

type Context struct{ rate, frame, buf int }

func NewContext(sampleRate, channelNum, bitDepthInBytes, bufferSizeInBytes int) (*Context, error) {
	if OpenDelay > 0 {
		time.Sleep(OpenDelay)
	}
	if OpenError {
		return nil, errors.New("no device")
	}
	return &Context{sampleRate, channelNum * bitDepthInBytes, bufferSizeInBytes}, nil
}

func (c *Context) Close() error       { return nil }
func (c *Context) NewPlayer() *Player { return &Player{c: c} }

type Player struct {
	c   *Context
	end int64 // when everything written so far has been played
}

// Write accepts the data and returns when at most half the device buffer is still to be played.
func (p *Player) Write(b []byte) (int, error) {
	now := time.Now().UnixNano()
	mu.Lock()
	writes = append(writes, Write{now, append([]byte(nil), b...)})
	st := int64(0)
	if stallFor > 0 && now >= stallAt {
		st, stallFor = stallFor, 0
		stalled, stallEnd = now, now+st
	}
	mu.Unlock()
	if st > 0 {
		time.Sleep(time.Duration(st))
		now += st
	}
	if p.end < now {
		p.end = now
	}
	p.end += int64(len(b)/p.c.frame) * 1e9 / int64(p.c.rate)
	slack := int64(p.c.buf/p.c.frame) * 1e9 / int64(p.c.rate) / 2
	if d := p.end - slack - now; d > 0 {
		time.Sleep(time.Duration(d))
	}
	return len(b), nil
}

func (p *Player) Close() error { return nil }
