// Package vscreen gives the display a simulated screen.
package vscreen

import (
	"sync"
	"time"

	"github.com/gdamore/tcell"
)

// Size of new screens.
var Width, Height = 80, 25

// Picture is what a screen showed from some time on: its rows of cells, 0: the second half of a wide one.
type Picture struct {
	At   int64 // UnixNano
	Rows [][]rune
}

var (
	mu       sync.Mutex
	pictures []Picture
	ended    bool
)

// Reset forgets everything recorded.
func Reset() {
	current = nil
	mu.Lock()
	pictures, Width, Height, ended = nil, 80, 25, false
	mu.Unlock()
}

// Take returns everything recorded.
func Take() []Picture {
	mu.Lock()
	defer mu.Unlock()
	return pictures
}

var current *screen

// Ended tells whether the terminal is as it was before there was a screen.
func Ended() bool {
	mu.Lock()
	defer mu.Unlock()
	return current == nil || ended
}

// Resize changes the size of the screen.
func Resize(w, h int) {
	current.SetSize(w, h)
	current.PostEvent(tcell.NewEventResize(w, h))
}

// Key presses a key.
func Key(k tcell.Key, r rune) { current.InjectKey(k, r, tcell.ModNone) }

type screen struct{ tcell.SimulationScreen }

// NewScreen replaces tcell.NewScreen.
func NewScreen() (tcell.Screen, error) {
	current = &screen{tcell.NewSimulationScreen("UTF-8")}
	return current, nil
}

func (s *screen) Init() error {
	err := s.SimulationScreen.Init()
	if err == nil {
		s.SetSize(Width, Height)
	}
	return err
}

// Fini gives the terminal back, once.
func (s *screen) Fini() {
	mu.Lock()
	again := ended
	ended = true
	mu.Unlock()
	if !again {
		s.SimulationScreen.Fini()
	}
}

func (s *screen) Show() {
	if Ended() {
		return
	}
	s.SimulationScreen.Show()
	w, h := s.Size()
	p := Picture{At: time.Now().UnixNano()}
	for y := 0; y < h; y++ {
		row := make([]rune, w)
		for x := 0; x < w; {
			r, _, _, n := s.GetContent(x, y)
			row[x] = r
			x += n
		}
		p.Rows = append(p.Rows, row)
	}
	mu.Lock()
	pictures = append(pictures, p)
	mu.Unlock()
}
