// Package vssh stands in for the ssh server: it keeps what it is started with,
// and sessions are in-memory terminals.
package vssh

import (
	"bytes"
	"context"
	"io"
	"net"
	"sync"

	"github.com/gliderlabs/ssh"
)

var (
	mu      sync.Mutex
	handler ssh.Handler
	options []ssh.Option
	addr    string
	started bool
)

// Handle replaces ssh.Handle.
func Handle(h ssh.Handler) { mu.Lock(); handler = h; mu.Unlock() }

// ListenAndServe replaces ssh.ListenAndServe.
func ListenAndServe(a string, h ssh.Handler, o ...ssh.Option) error {
	mu.Lock()
	addr, options, started = a, o, true
	if h != nil {
		handler = h
	}
	mu.Unlock()
	<-make(chan struct{})
	return nil
}

// Server returns a server with the options and handler given, or nil.
func Server() *ssh.Server {
	mu.Lock()
	defer mu.Unlock()
	if !started {
		return nil
	}
	s := &ssh.Server{Addr: addr, Handler: handler}
	for _, o := range options {
		if err := s.SetOption(o); err != nil {
			return nil
		}
	}
	return s
}

// Session is a terminal.
type Session struct {
	ssh.Session
	mu     sync.Mutex
	cond   *sync.Cond
	in     []byte
	out    bytes.Buffer
	closed bool
	name   string
	W, H   int
	NoPty  bool
	win    chan ssh.Window
	over   bool
}

// Open starts a session of user name.
func Open(name string) *Session {
	s := &Session{W: 80, H: 25}
	s.Start(name)
	return s
}

// Start starts the session.
func (s *Session) Start(name string) {
	s.name, s.win = name, make(chan ssh.Window, 64)
	s.cond = sync.NewCond(&s.mu)
	mu.Lock()
	h := handler
	mu.Unlock()
	go func() {
		h(s)
		s.mu.Lock()
		s.over = true
		s.mu.Unlock()
	}()
}

// Over tells whether the server is done with the session.
func (s *Session) Over() bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.over
}

// Resize changes the terminal's size.
func (s *Session) Resize(w, h int) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if !s.closed {
		s.win <- ssh.Window{Width: w, Height: h}
	}
}

// Type sends bytes.
func (s *Session) Type(b []byte) {
	s.mu.Lock()
	s.in = append(s.in, b...)
	s.cond.Broadcast()
	s.mu.Unlock()
}

// Output returns what was written to the terminal so far.
func (s *Session) Output() string {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.out.String()
}

// Ended tells whether the server closed the session.
func (s *Session) Ended() bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.closed
}

func (s *Session) Read(b []byte) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	for len(s.in) == 0 {
		if s.closed {
			return 0, io.EOF
		}
		s.cond.Wait()
	}
	n := copy(b, s.in)
	s.in = s.in[n:]
	return n, nil
}

func (s *Session) Write(b []byte) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.closed {
		return 0, io.EOF
	}
	return s.out.Write(b)
}

func (s *Session) Close() error {
	s.mu.Lock()
	defer s.mu.Unlock()
	if !s.closed {
		close(s.win)
	}
	s.closed = true
	s.cond.Broadcast()
	return nil
}

type nowhere struct{}

func (nowhere) Network() string { return "vssh" }
func (nowhere) String() string  { return "terminal" }

func (s *Session) CloseWrite() error                                    { return nil }
func (s *Session) SendRequest(n string, w bool, p []byte) (bool, error) { return true, nil }
func (s *Session) Stderr() io.ReadWriter                                { return s }
func (s *Session) User() string                                         { return s.name }
func (s *Session) RemoteAddr() net.Addr                                 { return nowhere{} }
func (s *Session) LocalAddr() net.Addr                                  { return nowhere{} }
func (s *Session) Environ() []string                                    { return nil }
func (s *Session) Exit(code int) error                                  { return s.Close() }
func (s *Session) Command() []string                                    { return nil }
func (s *Session) RawCommand() string                                   { return "" }
func (s *Session) PublicKey() ssh.PublicKey                             { return nil }
func (s *Session) Context() context.Context                             { return context.Background() }
func (s *Session) Permissions() ssh.Permissions                         { return ssh.Permissions{} }
func (s *Session) Signals(c chan<- ssh.Signal)                          {}
func (s *Session) Pty() (ssh.Pty, <-chan ssh.Window, bool) {
	if s.NoPty {
		return ssh.Pty{}, nil, false
	}
	return ssh.Pty{Term: "xterm", Window: ssh.Window{Width: s.W, Height: s.H}}, s.win, true
}
