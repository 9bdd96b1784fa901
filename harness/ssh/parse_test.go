// Command lines and completions.
package sshh

import (
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"unicode"

	"github.com/LogicalOverflow/music-sync/ssh"
	"github.com/LogicalOverflow/music-sync/ssh/parser"
	"github.com/LogicalOverflow/music-sync/verifrt/vh"
	"github.com/LogicalOverflow/music-sync/verifrt/vline"
	"github.com/LogicalOverflow/music-sync/verifrt/vssh"
)

func cps(s string) []int {
	r := []int{}
	for _, c := range s {
		r = append(r, int(c))
	}
	return r
}

func words(c string, p []string) [][]int {
	r := [][]int{cps(c)}
	for _, w := range p {
		r = append(r, cps(w))
	}
	return r
}

var odd = []rune("abx  \\\\  -*\"'é夏💡́\u00a0ß\u3000.")
var wild = []rune{0, 1, 9, 10, 13, 27, 127, 0x85, 0x200b, 0xfeff, 0xfffd, 0x10ffff, 0xd7ff, 0xe000, 0x2028}

func line(r *rand.Rand, n int, any bool) string {
	var b strings.Builder
	for i := r.Intn(n + 1); i > 0; i-- {
		switch k := r.Intn(10); {
		case any && k == 0:
			b.WriteRune(wild[r.Intn(len(wild))])
		case any && k == 1:
			b.WriteRune(rune(32 + r.Intn(1<<uint(5+r.Intn(11)))))
		case k < 4:
			b.WriteString([]string{" ", "\\", "\\ ", "\\\\", "  "}[r.Intn(5)])
		default:
			b.WriteRune(odd[r.Intn(len(odd))])
		}
	}
	return strings.ToValidUTF8(b.String(), "?")
}

// parse is a scenario of lines.
func parse(n int, r *rand.Rand) vh.J {
	ev := []vh.J{}
	try := func(s string) {
		c := parser.ParseCommand(s)
		ev = append(ev, vh.J{"k": "parse", "line": cps(s), "words": words(c.Command, c.Parameters)})
	}
	if n < 16 { // every short line
		alphabet := []rune("a \\夏é")
		if n >= 8 {
			alphabet = []rune("a \\")
		}
		depth := 5
		if n >= 8 {
			depth = 8
		}
		var all func(s string, d int)
		k := 0
		all = func(s string, d int) {
			if k++; k%8 == n%8 {
				try(s)
			}
			if d > 0 {
				for _, c := range alphabet {
					all(s+string(c), d-1)
				}
			}
		}
		all("", depth)
		return vh.J{"ev": ev, "names": []int{}, "table": []int{}}
	}
	for i := 0; i < 40; i++ {
		switch r.Intn(3) {
		case 0: // words written back
			ws := []string{}
			for j := 0; j <= r.Intn(5); j++ {
				w := line(r, 8, true)
				if w == "" {
					w = "\\ "
				}
				ws = append(ws, w)
			}
			c := parser.ParsedCommand{Command: ws[0], Parameters: ws[1:]}
			s := c.Unparse()
			b := parser.ParseCommand(s)
			ev = append(ev, vh.J{"k": "write", "line": cps(s), "words": words(c.Command, c.Parameters), "back": words(b.Command, b.Parameters)})
		case 1:
			try(line(r, []int{3, 10, 40, 120}[r.Intn(4)], true))
		default: // no text at all must still not crash
			b := make([]byte, r.Intn(30))
			r.Read(b)
			parser.ParseCommand(string(b))
		}
	}
	if n%4 == 0 { // a very long line
		s := line(r, 60, true) + " " + strings.Repeat(string(line(r, 1, false)+"x"), 1+r.Intn(3000))
		for len(s) < 500<<uint(r.Intn(9)) {
			s += line(r, 300, false)
		}
		try(s)
	}
	// lines typed at a terminal
	var mu sync.Mutex
	var got [][]string
	probe.Do(registerProbes)
	seen = func(name string, args []string) {
		mu.Lock()
		got = append(got, append([]string{name}, args...))
		mu.Unlock()
	}
	s := open()
	for i := 0; i < 6; i++ {
		mu.Lock()
		got = nil
		mu.Unlock()
		text := "probe"
		for j := 0; j <= r.Intn(4); j++ {
			text += " " + line(r, 8, false)
		}
		if r.Intn(5) == 0 {
			text = "pröbe" + text[5:]
		}
		mark := fmt.Sprintf("mark-%d", i)
		s.Type([]byte(text + "\rhelp " + mark + "\r"))
		for j := 0; j < 20 && !strings.Contains(s.Output(), "'"+mark+"' does not"); j++ {
			vh.Settle()
		}
		mu.Lock()
		g := []string{""} // it did not get through
		if len(got) == 1 {
			g = got[0]
		}
		mu.Unlock()
		ev = append(ev, vh.J{"k": "parse", "line": cps(text), "words": words(g[0], g[1:])})
	}
	s.Close()
	vh.Settle()
	return vh.J{"ev": ev, "names": []int{}, "table": []int{}}
}

// parallel parses lines at several terminals at the same time. Of those parsed as they are when
// nothing else is going on, a few are kept.
func parallel(n int, r *rand.Rand) vh.J {
	type parsed struct {
		s string
		c parser.ParsedCommand
	}
	var got [8][]parsed
	var wg sync.WaitGroup
	begin := make(chan struct{})
	for k := range got {
		k, r := k, rand.New(rand.NewSource(r.Int63()))
		var lines []string
		for i := 0; i < 300; i++ {
			lines = append(lines, string([]rune{rune(0x100 + r.Intn(0x5000))})+line(r, 14, true)+string([]rune{rune(0x100 + r.Intn(0x5000))}))
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-begin
			for _, s := range lines {
				got[k] = append(got[k], parsed{s, parser.ParseCommand(s)})
			}
		}()
	}
	close(begin)
	wg.Wait()
	ev := []vh.J{}
	for _, l := range got {
		for _, p := range l {
			c := parser.ParseCommand(p.s)
			if fmt.Sprintf("%q", c) != fmt.Sprintf("%q", p.c) || r.Intn(100) == 0 {
				ev = append(ev, vh.J{"k": "parse", "line": cps(p.s), "words": words(p.c.Command, p.c.Parameters)})
			}
		}
	}
	return vh.J{"ev": ev, "names": []int{}, "table": []int{}}
}

var (
	probe sync.Once
	seen  func(name string, args []string)
)

// what the probes offer for their arguments
var offer = map[string][][]string{
	"probe": {
		{"a", "ab", "A", "Abc", "a b", "a\\b", "a\\ b", "\\", "\\\\x", "é", "éa", "夏 lim", "夏 limé", "x", "xx", "ends\\", "ends ", " lead", "-", "\"q\"", "💡", "a\u0301"},
		{"second word", "second\\word", "sécond", "x", "a"},
		{},
		{"fourth"},
	},
	"pröbe":       {{"ö", "ö o", "o", "x"}, {"夏夏夏夏夏夏夏夏夏夏夏夏夏夏夏夏a", "夏夏夏夏夏夏夏夏夏夏夏夏夏夏夏夏b c"}},
	"probes":      {{"prob e"}},
	"two words":   {{"a", "two words"}},
	"back\\slash": {{"b"}},
	"silent":      nil,
	"many":        {numbered(100), numbered(700)},
}

func numbered(n int) (r []string) {
	for i := 0; i < n; i++ {
		r = append(r, fmt.Sprintf("n%d", 1000-i))
	}
	return
}

func registerProbes() {
	for name := range offer {
		name := name
		c := ssh.Command{Name: name, Usage: "anything", ExecFunc: func(a []string) (string, bool) {
			seen(name, append([]string{}, a...))
			return "ok", true
		}}
		if o := offer[name]; o != nil {
			c.OptionsFunc = func(prefix string, arg int) []string {
				if arg < 0 || arg >= len(o) {
					return []string{}
				}
				return append([]string{}, o[arg]...)
			}
		}
		ssh.RegisterCommand(c)
	}
}

func open() *vssh.Session {
	go ssh.StartSSH("console", nil)
	vh.Settle()
	s := vssh.Open("op")
	vh.Settle()
	return s
}

// complete is a scenario of completions.
func complete(n int, r *rand.Rand) vh.J {
	probe.Do(registerProbes)
	s := open()
	defer s.Close()
	names := [][]int{cps("clear"), cps("exit"), cps("help"), cps("ls")}
	table := []vh.J{}
	all := []string{"clear", "exit"}
	for name, o := range offer {
		names = append(names, cps(name))
		all = append(all, name)
		for a, l := range o {
			opts := [][]int{}
			for _, w := range l {
				opts = append(opts, cps(w))
			}
			table = append(table, vh.J{"c": cps(name), "a": a, "opts": opts})
		}
	}
	all = append(all, "help", "ls")
	hopts := append([][]int{}, names...)
	table = append(table, vh.J{"c": cps("help"), "a": 0, "opts": hopts})
	esc := strings.NewReplacer("\\", "\\\\", " ", "\\ ").Replace
	ev := []vh.J{}
	for i := 0; i < 40; i++ {
		t := ""
		switch r.Intn(8) {
		case 0:
			t = line(r, 8, true)
		case 1:
			t = esc(all[r.Intn(len(all))])
			t = string([]rune(t)[:r.Intn(len([]rune(t))+1)])
		default:
			name := []string{"probe", "probe", "probe", "pröbe", "two words", "help", "back\\slash", "silent", "unknown", "many"}[r.Intn(10)]
			t = esc(name)
			args := r.Intn(4)
			if r.Intn(12) == 0 {
				args = 6
			}
			for j := 0; j < args; j++ {
				t += strings.Repeat(" ", []int{1, 1, 1, 2, 3}[r.Intn(5)])
				if o := offer[name]; j < len(o) && len(o[j]) > 0 && r.Intn(6) > 0 {
					t += esc(o[j][r.Intn(len(o[j]))])
				} else {
					t += line(r, 4, false)
				}
			}
			switch r.Intn(4) {
			case 0:
				t += " "
			case 1, 2: // the last word is only begun
				c := []rune(t)
				k := r.Intn(6)
				if k > len(c) {
					k = len(c)
				}
				t = string(c[:len(c)-k])
			}
		}
		if r.Intn(6) == 0 { // capitals are other letters
			c := []rune(t)
			for j := range c {
				if r.Intn(2) == 0 {
					c[j] = unicode.ToUpper(c[j])
				}
			}
			t = string(c)
		}
		pos := len([]rune(t))
		if r.Intn(3) == 0 { // the cursor is not at the end
			t += line(r, 6, true)
		}
		if r.Intn(20) == 0 {
			pos = r.Intn(pos + 1)
		}
		if vline.Completer == nil {
			panic("no completer")
		}
		got, _ := vline.Completer.Do([]rune(t), pos)
		offers := [][]int{}
		for _, o := range got {
			offers = append(offers, cps(string(o)))
		}
		ev = append(ev, vh.J{"k": "complete", "line": cps(t), "pos": pos, "offers": offers})
	}
	// completing a line at the terminal runs it with a word offered
	var mu sync.Mutex
	var got [][]string
	seen = func(name string, args []string) {
		mu.Lock()
		got = append(got, append([]string{name}, args...))
		mu.Unlock()
	}
	for i, text := range []string{"probe a\\ \t", "probe 夏\\ lim\t", "prö\tö\\ \t", "two\t", "probe a  sé\t", "back\t b\t"} {
		mu.Lock()
		got = nil
		mu.Unlock()
		mark := fmt.Sprintf("mark-%d", i)
		s.Type([]byte(text + "\rhelp " + mark + "\r"))
		for j := 0; j < 20 && !strings.Contains(s.Output(), "'"+mark+"' does not"); j++ {
			vh.Settle()
		}
		want := []string{"probe a\\ b", "probe 夏\\ lim", "pröbe ö\\ o", "two\\ words", "probe a  sécond", "back\\\\slash b"}[i]
		mu.Lock()
		g := []string{""}
		if len(got) == 1 {
			g = got[0]
		}
		mu.Unlock()
		ev = append(ev, vh.J{"k": "parse", "line": cps(want), "words": words(g[0], g[1:])})
	}
	for _, text := range []string{"probe 夏\t\t", "\t\t", "probe \t\t", "pröbe ö 夏\t\t\t", "probe a\t\t", "help \t\t"} { // several words to choose from
		s := vssh.Open("menu")
		vh.Settle()
		s.Type([]byte(text))
		vh.Settle()
		vh.Settle()
	}
	return vh.J{"ev": ev, "names": names, "table": table}
}
