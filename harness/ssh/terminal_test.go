// Operators at terminals.
package sshh

import (
	"fmt"
	"math/rand"
	"strings"
	"sync"

	"github.com/LogicalOverflow/music-sync/ssh"
	"github.com/LogicalOverflow/music-sync/ssh/parser"
	"github.com/LogicalOverflow/music-sync/verifrt/vh"
	"github.com/LogicalOverflow/music-sync/verifrt/vssh"
)

const prompt = "music-sync» "

// screen is what a terminal shows, and what scrolled out of it.
type screen struct {
	rows [][]rune
	y, x int
}

func (s *screen) row() []rune {
	for len(s.rows) <= s.y {
		s.rows = append(s.rows, nil)
	}
	return s.rows[s.y]
}

func (s *screen) write(out string) {
	t := []rune(out)
	for i := 0; i < len(t); i++ {
		switch c := t[i]; c {
		case '\r':
			s.x = 0
		case '\n':
			s.y++
			s.x = 0
		case '\b':
			if s.x > 0 {
				s.x--
			}
		case 7:
		case 27:
			n := 0
			for i += 2; i < len(t) && (t[i] == ';' || t[i] == '?' || '0' <= t[i] && t[i] <= '9'); i++ {
				n = n*10 + int(t[i]-'0')
			}
			if i >= len(t) {
				return
			}
			row := s.row()
			switch t[i] {
			case 'J':
				s.rows = s.rows[:s.y+1]
				if s.x < len(row) {
					s.rows[s.y] = row[:s.x]
				}
			case 'K':
				if n == 2 {
					s.rows[s.y] = nil
				} else if s.x < len(row) {
					s.rows[s.y] = row[:s.x]
				}
			case 'A':
				if s.y > 0 {
					s.y--
				}
			case 'H':
				s.y, s.x = 0, 0
			}
		default:
			row := s.row()
			for len(row) <= s.x {
				row = append(row, ' ')
			}
			row[s.x] = c
			s.rows[s.y] = row
			s.x++
		}
	}
	s.row()
}

// answers returns what is shown after each line typed at a prompt, and what is typed at the last one.
type answer struct {
	echo string
	rows []string
}

func (s *screen) answers() (r []answer) {
	for _, row := range s.rows {
		if t := string(row); strings.HasPrefix(t, prompt) {
			r = append(r, answer{echo: t[len(prompt):]})
		} else if len(r) > 0 {
			r[len(r)-1].rows = append(r[len(r)-1].rows, t)
		} else if strings.Trim(t, " ") != "" {
			r = append(r, answer{echo: "(nothing)", rows: []string{t}})
		}
	}
	return
}

func texts(rows []string) [][]int {
	r := [][]int{}
	for _, row := range rows {
		r = append(r, cps(row))
	}
	return r
}

// the characters of messages and of lines: none which are not as wide as others
var (
	plain = []rune("abcxyz  ABC019.,-_éßλЖ")
	signs = []rune("%%%$'\"`{}[]()<>|&;*?!#~^=+:/@\\")
)

func phrase(r *rand.Rand, n int) string {
	b := []rune{}
	for i := r.Intn(n + 1); i > 0; i-- {
		switch r.Intn(4) {
		case 0:
			b = append(b, signs[r.Intn(len(signs))])
		case 1:
			if r.Intn(4) == 0 {
				b = append(b, []rune([]string{"%s", "%d", "%v", "%!", "%[1]s", "\\n", "夏日", "→"}[r.Intn(8)])...)
			}
		default:
			b = append(b, plain[r.Intn(len(plain))])
		}
	}
	return strings.TrimRight(string(b), " ")
}

func word(r *rand.Rand) string {
	b := []rune{}
	for i := 1 + r.Intn(8); i > 0; i-- {
		b = append(b, []rune("abcdefgxyzéλ%-_'5")[r.Intn(17)])
	}
	return string(b)
}

type call struct {
	words []string
	out   string
	ok    bool
	hold  chan bool
}

// terminals is a scenario of operators at several terminals.
func terminals(n int, r *rand.Rand) vh.J {
	vh.Perturb(r)
	ev := []vh.J{}
	var mu sync.Mutex
	add := func(j vh.J) { mu.Lock(); ev = append(ev, j); mu.Unlock() }
	table := []vh.J{
		{"name": cps("help"), "info": cps("retrieves help for a command"), "usage": cps("[command name]")},
		{"name": cps("ls"), "info": cps("lists all songs in the music (sub) directory"), "usage": cps("[sub directory]")},
	}
	table = []vh.J{}
	names := []string{}
	calls := map[string]*call{} // by the last word of the line
	known := map[string]bool{"help": true, "ls": true, "exit": true, "clear": true}
	for i := 1 + r.Intn(6); i > 0; i-- {
		name := word(r)
		if r.Intn(4) == 0 {
			name += " " + word(r)
		}
		if len(names) > 0 && r.Intn(4) == 0 { // names which begin alike
			name = names[r.Intn(len(names))] + word(r)
		}
		if known[name] {
			continue
		}
		known[name] = true
		names = append(names, name)
		info, usage := "i"+phrase(r, 30), ""
		if r.Intn(4) > 0 {
			usage = "u" + phrase(r, 20)
		}
		table = append(table, vh.J{"name": cps(name), "info": cps(info), "usage": cps(usage)})
		ssh.RegisterCommand(ssh.Command{Name: name, Info: info, Usage: usage, ExecFunc: func(args []string) (string, bool) {
			ws := append([]string{name}, args...)
			add(vh.J{"k": "call", "words": words(ws[0], ws[1:])})
			mu.Lock()
			c := calls[ws[len(ws)-1]]
			mu.Unlock()
			if c == nil {
				return "nobody typed this", true
			}
			if c.hold != nil {
				<-c.hold
			}
			add(vh.J{"k": "return", "words": words(name, args), "ok": c.ok, "rows": texts(strings.Split(c.out, "\n"))})
			return c.out, c.ok
		}})
	}
	go ssh.StartSSH("console", nil)
	vh.Settle()
	type terminal struct {
		s       *vssh.Session
		in      bool
		screen  screen
		seen    int // bytes
		said    int // answers
		held    []*call
		waiting int    // lines typed and not answered
		last    string // the last line in its history
	}
	ts := make([]*terminal, 1+r.Intn(4))
	for i := range ts {
		ts[i] = &terminal{s: &vssh.Session{W: []int{400, 400, 200, 1000}[r.Intn(4)], H: 5 + r.Intn(40)}}
	}
	esc := strings.NewReplacer("\\", "\\\\", " ", "\\ ").Replace
	serial := 0
	// a line for a command
	line := func(hold bool) (string, *call) {
		serial++
		id := fmt.Sprintf("n%d", serial)
		c := &call{ok: r.Intn(4) > 0}
		if hold {
			c.hold = make(chan bool)
		}
		switch r.Intn(6) {
		case 0:
		case 1:
			c.out = phrase(r, 300)
		default:
			for i := r.Intn(8); i >= 0; i-- {
				c.out += phrase(r, 30) + strings.Repeat("\n", []int{0, 1, 1, 1, 2}[r.Intn(5)])
			}
		}
		name := names[r.Intn(len(names))]
		ws := []string{}
		for i := r.Intn(4); i > 0; i-- {
			if w := phrase(r, 6); w != "" {
				ws = append(ws, w)
			}
		}
		mu.Lock()
		calls[id] = c
		mu.Unlock()
		s := esc(name)
		for _, w := range append(ws, id) {
			s += strings.Repeat(" ", 1+r.Intn(5)/4) + esc(w)
		}
		return s, c
	}
	// the keys that make a line
	keys := func(l string) string {
		t := []rune(l)
		if len(t) < 3 {
			return l
		}
		k := 1 + r.Intn(len(t)-2)
		a, b := string(t[:k]), string(t[k:])
		switch r.Intn(14) {
		case 0: // a mistake
			return a + "xyz\x7f\x7f\x7f" + b
		case 1: // the end first
			return b + "\x01" + a
		case 2: // and back
			return b + "\x01" + a + "\x05"
		case 3: // some of it at the end is not wanted
			return l + "abc\x02\x02\x02\x0b"
		case 4: // nothing of it is wanted
			return "wrong" + "\x15" + l
		case 5: // keys which do nothing
			return a + []string{"\x1a", "\x14", "\x12", "\x13"}[r.Intn(4)] + b
		case 6:
			return a + "\x02\x02\x06\x06" + b
		}
		return l
	}
	// what there is to see
	look := func(i int) {
		t := ts[i]
		out := t.s.Output()
		t.screen.write(out[t.seen:])
		t.seen = len(out)
		as := t.screen.answers()
		for len(as) > 0 && t.said < len(as)-1 {
			a := as[t.said]
			t.said++
			if strings.HasSuffix(a.echo, "^C") && len(a.rows) == 0 {
				continue // given up
			}
			t.waiting--
			add(vh.J{"k": "shown", "s": i, "echo": cps(a.echo), "rows": texts(a.rows)})
		}
	}
	quiet := func() {
		vh.Settle()
		vh.Settle()
		left, running := []int{}, []int{}
		for i, t := range ts {
			if t.in {
				look(i)
				if t.waiting > 0 && !t.s.Over() {
					running = append(running, i)
				}
			}
			if t.s.Over() {
				left = append(left, i)
				t.in = false
			}
		}
		add(vh.J{"k": "quiet", "left": left, "running": running})
	}
	for i := range ts {
		ts[i].s.NoPty = r.Intn(8) == 0
		add(vh.J{"k": "open", "s": i, "pty": !ts[i].s.NoPty})
		ts[i].s.Start(fmt.Sprint("op", i))
		ts[i].in = !ts[i].s.NoPty
		if r.Intn(3) > 0 {
			quiet()
		}
	}
	quiet()
	for k := 0; k < 24; k++ {
		// lines are typed at some terminals at the same time
		for i, t := range ts {
			if !t.in || r.Intn(3) == 0 {
				continue
			}
			if len(t.held) > 0 {
				if r.Intn(3) == 0 { // a command ends
					h := t.held[0].hold
					t.held = t.held[1:]
					close(h)
				}
				continue
			}
			in := ""
			enter := func(l string) {
				add(vh.J{"k": "enter", "s": i, "line": cps(l)})
				t.waiting++
				t.last = l
			}
			if r.Intn(10) == 0 {
				t.s.Resize([]int{0, 5, 400, 300, 2000}[r.Intn(5)], r.Intn(30))
				vh.Settle()
				t.s.Resize(400+r.Intn(200), 1+r.Intn(30))
				vh.Settle()
			}
			for j := 1 + r.Intn(6)/4*r.Intn(4); j > 0; j-- { // some before the first is answered
				switch r.Intn(14) {
				case 0:
					l := []string{"help", "help  ", "help help", "help exit", "help clear"}[r.Intn(5)]
					enter(l)
					in += keys(l) + "\r"
				case 1:
					w := word(r)
					if r.Intn(2) == 0 {
						w = names[r.Intn(len(names))]
					}
					enter("help " + esc(w))
					in += "help " + esc(w) + "\r"
				case 2:
					if w := word(r); !known[w] {
						enter(w)
						in += w + "\r"
					}
				case 3:
					w := names[r.Intn(len(names))] + "x"
					if !known[w] {
						enter(esc(w))
						in += esc(w) + "\r"
					}
				case 4:
					l := []string{"", " ", "   "}[r.Intn(3)]
					last := t.last
					enter(l)
					if l == "" { // it is not kept
						t.last = last
					}
					in += l + "\r"
				default:
					l, c := line(r.Intn(6) == 0)
					if len([]rune(l)) > 150 {
						continue
					}
					if c.hold != nil {
						t.held = append(t.held, c)
					}
					if t.last == "" { // there is no line before
						in += []string{"", "\x10", "\x10\x10", "\x0e"}[r.Intn(4)]
					}
					enter(l)
					in += keys(l) + "\r"
				}
			}
			t.s.Type([]byte(in))
		}
		if r.Intn(4) > 0 {
			quiet()
		} else {
			continue
		}
		// one of them does something else
		i := r.Intn(len(ts))
		t := ts[i]
		if !t.in || len(t.held) > 0 || t.waiting > 0 {
			continue
		}
		switch r.Intn(12) {
		case 0, 1: // gives up a line
			l, _ := line(false)
			if r.Intn(3) == 0 {
				l = []string{"", "exit", "clear", "help", "nothing"}[r.Intn(5)]
			}
			add(vh.J{"k": "cancel", "s": i})
			t.s.Type([]byte(l + "\x03"))
		case 2: // the line before, again
			if c := parser.ParseCommand(t.last); t.last != "" && c.Command != "clear" {
				l := t.last
				add(vh.J{"k": "enter", "s": i, "line": cps(l)})
				t.waiting++
				t.s.Type([]byte("\x10\r"))
				if x := c.Parameters; len(x) > 0 && calls[x[len(x)-1]] != nil && calls[x[len(x)-1]].hold != nil {
					break // it does not wait any longer
				}
			}
		case 3: // clears the screen
			add(vh.J{"k": "enter", "s": i, "line": cps("clear")})
			t.s.Type([]byte("clear\r"))
			t.last = "clear"
			vh.Settle()
			vh.Settle()
			out := t.s.Output()
			t.screen.write(out[t.seen:])
			t.seen = len(out)
			as := t.screen.answers()
			if len(as) == 1 && strings.Trim(as[0].echo, " ") == "" && len(as[0].rows) == 0 {
				add(vh.J{"k": "cleared", "s": i})
			}
			t.said = 0
		case 4: // leaves
			switch r.Intn(3) {
			case 0:
				l := []string{"exit", "exit now", "  exit"}[r.Intn(2)]
				add(vh.J{"k": "enter", "s": i, "line": cps(l)})
				add(vh.J{"k": "exit", "s": i})
				t.s.Type([]byte(l + "\r"))
			case 1:
				add(vh.J{"k": "quit", "s": i})
				t.s.Type([]byte("\x04"))
			default:
				add(vh.J{"k": "quit", "s": i})
				t.s.Close()
			}
			t.waiting = 0
		}
		quiet()
	}
	for len(ts) > 0 { // whatever is held goes on
		any := false
		for _, t := range ts {
			if len(t.held) > 0 {
				close(t.held[0].hold)
				t.held = t.held[1:]
				any = true
			}
		}
		if !any {
			break
		}
		quiet()
	}
	return vh.J{"ev": ev, "names": []int{}, "table": table}
}
