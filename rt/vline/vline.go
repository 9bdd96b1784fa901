// Package vline keeps what line editors are configured with.
package vline

import (
	"sync/atomic"

	"github.com/chzyer/readline"
)

// Completer is that of the latest line editor.
var Completer readline.AutoCompleter

// Suspended counts how often a line editor would have suspended the process and its parent.
var Suspended int32

// NewEx replaces readline.NewEx.
func NewEx(cfg *readline.Config) (*readline.Instance, error) {
	Completer = cfg.AutoComplete
	cfg.FuncIsTerminal = func() bool { return true }
	cfg.FuncMakeRaw = func() error { return nil }
	cfg.FuncExitRaw = func() error { return nil }
	cfg.FuncOnWidthChanged = func(func()) {}
	filter := cfg.FuncFilterInputRune
	cfg.FuncFilterInputRune = func(r rune) (rune, bool) {
		ok := true
		if filter != nil {
			r, ok = filter(r)
		}
		if ok && r == readline.CharCtrlZ {
			atomic.AddInt32(&Suspended, 1)
			ok = false
		}
		return r, ok
	}
	return readline.NewEx(cfg)
}
