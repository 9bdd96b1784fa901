// Package vsignal delivers simulated signals.
package vsignal

import (
	"context"
	"os"
	"sync"
)

type wish struct {
	c    chan<- os.Signal
	sigs []os.Signal
}

var (
	mu     sync.Mutex
	wishes []wish
)

// Reset forgets who wants signals.
func Reset() { mu.Lock(); wishes = nil; mu.Unlock() }

// Notify replaces signal.Notify.
func Notify(c chan<- os.Signal, sigs ...os.Signal) {
	mu.Lock()
	wishes = append(wishes, wish{c, sigs})
	mu.Unlock()
}

// Stop replaces signal.Stop.
func Stop(c chan<- os.Signal) {
	mu.Lock()
	defer mu.Unlock()
	var rest []wish
	for _, w := range wishes {
		if w.c != c {
			rest = append(rest, w)
		}
	}
	wishes = rest
}

// NotifyContext replaces signal.NotifyContext.
func NotifyContext(parent context.Context, sigs ...os.Signal) (context.Context, context.CancelFunc) {
	ctx, cancel := context.WithCancel(parent)
	c := make(chan os.Signal, 1)
	Notify(c, sigs...)
	go func() {
		select {
		case <-c:
			cancel()
		case <-ctx.Done():
		}
		Stop(c)
	}()
	return ctx, cancel
}

// Raise sends a signal; it tells whether anybody wanted it.
func Raise(s os.Signal) bool {
	mu.Lock()
	defer mu.Unlock()
	any := false
	for _, w := range wishes {
		wanted := len(w.sigs) == 0
		for _, x := range w.sigs {
			wanted = wanted || x == s
		}
		if wanted {
			any = true
			select {
			case w.c <- s:
			default:
			}
		}
	}
	return any
}
