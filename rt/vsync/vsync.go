// Package vsync replaces package sync in the code under test: same meaning,
// but waiting for a lock is a wait the simulated clock knows about.
package vsync

import "sync"

type (
	WaitGroup = sync.WaitGroup
	Cond      = sync.Cond
	Once      = sync.Once
	Map       = sync.Map
	Pool      = sync.Pool
	Locker    = sync.Locker
)

func NewCond(l Locker) *Cond   { return sync.NewCond(l) }
func OnceFunc(f func()) func() { return sync.OnceFunc(f) }

type waiter struct {
	write bool
	ch    chan struct{}
}

// RWMutex has the semantics of sync.RWMutex (a waiting writer blocks new readers).
type RWMutex struct {
	mu      sync.Mutex
	writer  bool
	readers int
	queue   []waiter
}

func (m *RWMutex) acquire(write bool) {
	m.mu.Lock()
	if len(m.queue) == 0 && !m.writer && (!write || m.readers == 0) {
		m.take(write)
		m.mu.Unlock()
		return
	}
	w := waiter{write, make(chan struct{})}
	m.queue = append(m.queue, w)
	m.mu.Unlock()
	<-w.ch
}

func (m *RWMutex) take(write bool) {
	if write {
		m.writer = true
	} else {
		m.readers++
	}
}

func (m *RWMutex) try(write bool) bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	if len(m.queue) == 0 && !m.writer && (!write || m.readers == 0) {
		m.take(write)
		return true
	}
	return false
}

func (m *RWMutex) release(write bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	if write {
		if !m.writer {
			panic("sync: Unlock of unlocked RWMutex")
		}
		m.writer = false
	} else {
		if m.readers == 0 {
			panic("sync: RUnlock of unlocked RWMutex")
		}
		m.readers--
	}
	for len(m.queue) > 0 {
		w := m.queue[0]
		if m.writer || (w.write && m.readers > 0) {
			break
		}
		m.take(w.write)
		m.queue = m.queue[1:]
		close(w.ch)
	}
}

func (m *RWMutex) Lock()          { m.acquire(true) }
func (m *RWMutex) Unlock()        { m.release(true) }
func (m *RWMutex) RLock()         { m.acquire(false) }
func (m *RWMutex) RUnlock()       { m.release(false) }
func (m *RWMutex) TryLock() bool  { return m.try(true) }
func (m *RWMutex) TryRLock() bool { return m.try(false) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Mutex has the semantics of sync.Mutex.
type Mutex struct{ rw RWMutex }

func (m *Mutex) Lock()         { m.rw.acquire(true) }
func (m *Mutex) Unlock()       { m.rw.release(true) }
func (m *Mutex) TryLock() bool { return m.rw.try(true) }
