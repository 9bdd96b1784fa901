// Package vnet is an in-memory network whose connections live in simulated
// time, can stall, fail and fragment, and have bounded buffers.
package vnet

import (
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"runtime"
	"sync"
	"syscall"
	"time"
)

type addr string

func (a addr) Network() string { return "vnet" }
func (a addr) String() string  { return string(a) }

// half is one direction of a connection.
type half struct {
	mu     sync.Mutex
	cond   *sync.Cond
	buf    []byte
	cap    int
	wdone  bool  // no more data will be written
	rdone  bool  // the reader is gone
	werr   error // writes fail with this
	total  int   // bytes accepted
	failAt int   // writes fail once this many bytes were accepted; -1: never
	rmax   func() int
	wmax   func() int
	wmu    chan struct{} // serialises Write calls
	rdl    time.Time
	wdl    time.Time
	name   string
}

func newHalf(capacity int) *half {
	h := &half{cap: capacity, failAt: -1, wmu: make(chan struct{}, 1)}
	h.cond = sync.NewCond(&h.mu)
	return h
}

// ErrBroken is wrapped by the error of a write nobody can receive.
var ErrBroken = errors.New("vnet: broken pipe")

func (h *half) write(b []byte) (int, error) {
	h.wmu <- struct{}{}
	defer func() { <-h.wmu }()
	if h.wmax != nil {
		if m := h.wmax(); m < len(b) {
			b = b[:m]
		}
	}
	h.mu.Lock()
	defer h.mu.Unlock()
	n := 0
	for {
		if h.werr != nil {
			return n, h.werr
		}
		if h.wdone {
			return n, fmt.Errorf("vnet %s: %w", h.name, net.ErrClosed)
		}
		if h.rdone || (h.failAt >= 0 && h.total >= h.failAt) {
			return n, fmt.Errorf("vnet %s: %w", h.name, ErrBroken)
		}
		if n == len(b) {
			return n, nil
		}
		if !h.wdl.IsZero() && !time.Now().Before(h.wdl) {
			return n, os.ErrDeadlineExceeded
		}
		room := h.cap - len(h.buf)
		if h.failAt >= 0 && h.failAt-h.total < room {
			room = h.failAt - h.total
		}
		if room > len(b)-n {
			room = len(b) - n
		}
		if room > 0 {
			h.buf = append(h.buf, b[n:n+room]...)
			h.total += room
			n += room
			h.cond.Broadcast()
			continue
		}
		h.cond.Wait()
	}
}

func (h *half) read(b []byte) (int, error) {
	if len(b) == 0 {
		return 0, nil
	}
	if h.rmax != nil {
		if m := h.rmax(); m < len(b) {
			b = b[:m]
		}
	}
	h.mu.Lock()
	defer h.mu.Unlock()
	for {
		if h.rdone {
			return 0, net.ErrClosed
		}
		if len(h.buf) > 0 {
			n := copy(b, h.buf)
			h.buf = h.buf[n:]
			h.cond.Broadcast()
			return n, nil
		}
		if h.wdone {
			return 0, io.EOF
		}
		if !h.rdl.IsZero() && !time.Now().Before(h.rdl) {
			return 0, os.ErrDeadlineExceeded
		}
		h.cond.Wait()
	}
}

// Conn is one end of a connection.
type Conn struct {
	in, out *half
	l, r    addr
	closed  bool
	Name    string
}

// Pipe returns a connected pair; capacity bounds the bytes in flight from a to b and from b to a.
func Pipe(name string, ab, ba int) (a, b *Conn) {
	x, y := newHalf(ab), newHalf(ba)
	x.name, y.name = name, name
	return &Conn{in: y, out: x, l: addr(name + "/a"), r: addr(name + "/b"), Name: name},
		&Conn{in: x, out: y, l: addr(name + "/b"), r: addr(name + "/a"), Name: name}
}

func (c *Conn) Read(b []byte) (int, error)  { return c.in.read(b) }
func (c *Conn) Write(b []byte) (int, error) { return c.out.write(b) }

func (c *Conn) Close() error {
	c.in.mu.Lock()
	again := c.in.rdone
	c.in.rdone = true
	c.in.cond.Broadcast()
	c.in.mu.Unlock()
	c.out.mu.Lock()
	c.out.wdone = true
	c.out.cond.Broadcast()
	c.out.mu.Unlock()
	if again {
		return net.ErrClosed
	}
	return nil
}

// Closed tells whether this end has been closed by its user.
func (c *Conn) Closed() bool {
	c.in.mu.Lock()
	defer c.in.mu.Unlock()
	return c.in.rdone
}

// CloseWrite ends the outgoing stream.
func (c *Conn) CloseWrite() {
	c.out.mu.Lock()
	c.out.wdone = true
	c.out.cond.Broadcast()
	c.out.mu.Unlock()
}

// FailWrites makes writes to this end fail after n more bytes.
func (c *Conn) FailWrites(n int) {
	c.out.mu.Lock()
	c.out.failAt = c.out.total + n
	c.out.cond.Broadcast()
	c.out.mu.Unlock()
}

// FailWritesWith makes every write to this end fail with err.
func (c *Conn) FailWritesWith(err error) {
	c.out.mu.Lock()
	c.out.werr = err
	c.out.cond.Broadcast()
	c.out.mu.Unlock()
}

// PeerFails makes every write of the other end fail with an error naming the connection.
func (c *Conn) PeerFails() {
	c.in.mu.Lock()
	c.in.werr = fmt.Errorf("vnet %s: connection reset", c.in.name)
	c.in.cond.Broadcast()
	c.in.mu.Unlock()
}

// SetCap sets the capacity of the outgoing buffer.
func (c *Conn) SetCap(n int) {
	c.out.mu.Lock()
	c.out.cap = n
	c.out.cond.Broadcast()
	c.out.mu.Unlock()
}

// Fragment limits the bytes one Read returns and one Write accepts.
func (c *Conn) Fragment(rmax, wmax func() int) { c.in.rmax, c.out.wmax = rmax, wmax }

// FragmentPeer does the same for the other end.
func (c *Conn) FragmentPeer(rmax, wmax func() int) { c.out.rmax, c.in.wmax = rmax, wmax }

// PeerClosed tells whether the other end has been closed by its user.
func (c *Conn) PeerClosed() bool {
	c.out.mu.Lock()
	defer c.out.mu.Unlock()
	return c.out.rdone
}

// Pending is the number of bytes written by the peer and not yet read.
func (c *Conn) Pending() int {
	c.in.mu.Lock()
	defer c.in.mu.Unlock()
	return len(c.in.buf)
}

func (c *Conn) LocalAddr() net.Addr  { return c.l }
func (c *Conn) RemoteAddr() net.Addr { return c.r }

func (h *half) deadline(p *time.Time, t time.Time) {
	h.mu.Lock()
	*p = t
	h.cond.Broadcast()
	h.mu.Unlock()
	if !t.IsZero() {
		time.AfterFunc(time.Until(t), func() { h.mu.Lock(); h.cond.Broadcast(); h.mu.Unlock() })
	}
}

func (c *Conn) SetDeadline(t time.Time) error {
	c.SetReadDeadline(t)
	return c.SetWriteDeadline(t)
}
func (c *Conn) SetReadDeadline(t time.Time) error  { c.in.deadline(&c.in.rdl, t); return nil }
func (c *Conn) SetWriteDeadline(t time.Time) error { c.out.deadline(&c.out.wdl, t); return nil }

// Listener is an in-memory listener.
type Listener struct {
	name string
	ch   chan *Conn
	full chan struct{}
	done chan struct{}
	once sync.Once
	n    int
}

var (
	lmu       sync.Mutex
	listeners = map[string]*Listener{}
)

// Reset forgets all listeners (between runs).
func Reset() {
	lmu.Lock()
	listeners = map[string]*Listener{}
	lmu.Unlock()
}

// Listen replaces net.Listen.
func Listen(network, address string) (net.Listener, error) {
	lmu.Lock()
	defer lmu.Unlock()
	if listeners[address] != nil {
		return nil, fmt.Errorf("vnet: address %s in use", address)
	}
	l := &Listener{name: address, ch: make(chan *Conn), full: make(chan struct{}, 64), done: make(chan struct{})}
	listeners[address] = l
	return l, nil
}

func (l *Listener) Accept() (net.Conn, error) {
	select {
	case c := <-l.ch:
		return c, nil
	case <-l.full:
		return nil, &net.OpError{Op: "accept", Net: "vnet", Addr: l.Addr(), Err: os.NewSyscallError("accept4", syscall.EMFILE)}
	case <-l.done:
		return nil, net.ErrClosed
	}
}

// Exhaust makes Accept fail n times, as if there were too many connections.
func Exhaust(address string, n int) {
	lmu.Lock()
	l := listeners[address]
	lmu.Unlock()
	for ; n > 0; n-- {
		l.full <- struct{}{}
	}
}

func (l *Listener) Close() error {
	l.once.Do(func() {
		close(l.done)
		lmu.Lock()
		if listeners[l.name] == l {
			delete(listeners, l.name)
		}
		lmu.Unlock()
	})
	return nil
}
func (l *Listener) Addr() net.Addr { return addr(l.name) }

// DialCap is the buffer capacity of connections made by Dial, to and from the dialer.
var DialCap = [2]int{1 << 20, 1 << 20}

// Connect dials with explicit buffer capacities (bytes in flight towards the dialer / towards the server).
func Connect(address string, toDialer, toServer int) (*Conn, error) {
	lmu.Lock()
	l := listeners[address]
	lmu.Unlock()
	if l == nil {
		return nil, fmt.Errorf("vnet: connection to %s refused", address)
	}
	lmu.Lock()
	l.n++
	a, b := Pipe(fmt.Sprintf("%s#%d", address, l.n), toServer, toDialer)
	lmu.Unlock()
	track(b)
	select {
	case l.ch <- b:
		return a, nil
	case <-l.done:
		return nil, fmt.Errorf("vnet: connection to %s refused", address)
	}
}

// Dial replaces net.Dial.
func Dial(network, address string) (net.Conn, error) {
	c, err := Connect(address, DialCap[0], DialCap[1])
	if err != nil {
		return nil, err
	}
	return c, nil
}

// DialTimeout replaces net.DialTimeout.
func DialTimeout(network, address string, _ time.Duration) (net.Conn, error) {
	return Dial(network, address)
}

var (
	fmu   sync.Mutex
	freed = map[string]bool{}
)

// track notes when nothing refers to an accepted connection any more.
func track(b *Conn) {
	name := b.Name
	runtime.SetFinalizer(b, func(*Conn) {
		fmu.Lock()
		freed[name] = true
		fmu.Unlock()
	})
}

// Freed tells whether nothing refers to the server's end of the named connection any more.
func Freed(name string) bool {
	fmu.Lock()
	defer fmu.Unlock()
	return freed[name]
}
