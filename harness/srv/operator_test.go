// Any commands in any state of the server.
package srv

import (
	"fmt"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/LogicalOverflow/music-sync/comm"
	"github.com/LogicalOverflow/music-sync/ssh"
	"github.com/LogicalOverflow/music-sync/verifrt/vcli"
	"github.com/LogicalOverflow/music-sync/verifrt/vcmd"
	"github.com/LogicalOverflow/music-sync/verifrt/vh"
	"github.com/LogicalOverflow/music-sync/verifrt/vline"
	"github.com/LogicalOverflow/music-sync/verifrt/vnet"
	"github.com/LogicalOverflow/music-sync/verifrt/vssh"
)

var shellEscape = strings.NewReplacer("\\", "\\\\", " ", "\\ ").Replace

// desk is a terminal with an operator.
type desk struct {
	s     *vssh.Session
	seen  int
	marks int
}

func newDesk(name string) *desk {
	d := &desk{s: vssh.Open(name)}
	vh.Settle()
	return d
}

// wait waits until something is printed, for half a minute.
func (d *desk) wait(what string) bool {
	for t := time.Duration(0); t < 30*time.Second; {
		if strings.Contains(d.s.Output()[d.seen:], what) {
			return true
		}
		step := time.Millisecond + t/4
		time.Sleep(step)
		t += step
	}
	return false
}

// run types lines and returns what is printed until they are answered.
func (d *desk) run(lines ...string) (string, bool) {
	d.marks++
	mark := fmt.Sprintf("mark-%d", d.marks)
	d.s.Type([]byte(strings.Join(append(lines, "help "+mark), "\r") + "\r"))
	if !d.wait("Command '" + mark + "' does not exist.") {
		return "", false
	}
	time.Sleep(2 * time.Millisecond)
	o := d.s.Output()
	got := o[d.seen:]
	d.seen = len(o)
	return got, true
}

func reply(cmd, out string) string {
	switch {
	case strings.Contains(out, "Usage: "+cmd) && cmd != "help":
		return "usage"
	case strings.Contains(out, "Unknown command"):
		return "unknown"
	}
	return "result"
}

// number makes a parameter where a number is expected.
func numeral(r *rand.Rand) (string, string, int) {
	switch r.Intn(10) {
	case 0:
		return []string{"x", "1,5", "--1", "ten", "５", "+", "-", "1-", "é", "\"1\"", "$1", "1 2"}[r.Intn(12)], "bad", 0
	case 1:
		return []string{"99999999999999999999", "-99999999999999999999", "1.0", "0x10", "1e3", "1_0", "0b1", " 1", "1 "}[r.Intn(9)], "odd", 0
	case 2:
		p := []int{math.MaxInt64, math.MinInt64, math.MaxInt32, math.MinInt32, 1 << 40, -1, math.MaxInt64 - 1, math.MinInt64 + 1}[r.Intn(8)]
		return strconv.Itoa(p), "num", clip(p)
	case 3:
		p := r.Intn(8)
		return []string{"+", "0", "00", "-0"}[r.Intn(4)] + strconv.Itoa(p), "", p
	}
	p := r.Intn(12) - 3
	return strconv.Itoa(p), "num", p
}

// junk is anything but tabs: the menu of the line editor is not safe to use while something is printed, whatever
// the server does.
func junk(r *rand.Rand) []byte {
	var b []byte
	for i := r.Intn(40); i > 0; i-- {
		switch r.Intn(6) {
		case 0:
			b = append(b, byte(r.Intn(32)))
			if b[len(b)-1] == 9 { // see below
				b = b[:len(b)-1]
			}
		case 1:
			b = append(b, []string{"\x1b[A", "\x1b[B", "\x1b[C", "\x1b[D", "\x1b[3~", "\x1b[1;5C", "\x1bb", "\x1bf", "\x1b[200~", "\x1b[6n", "\x1b[10;20R", "\x1b", "\x7f", "\x0b", "\x03", "\r", "\r\n", "\x12", "\x13"}[r.Intn(19)]...)
		case 2:
			b = append(b, byte(r.Intn(256)))
		case 3:
			b = append(b, []string{"queue ", "ls ", "help ", "q", "queue f", "ls sub\r", "jump ", "夏", "\\", "\\ ", " ", "e\u0301", "\U0001F4A1"}[r.Intn(13)]...)
		case 4:
			b = append(b, "\x14\x1a\x12\r"[r.Intn(4)])
		default:
			b = append(b, byte(32+r.Intn(95)))
		}
	}
	return b
}

// menu opens the menu of completions and walks it: one key at a time, and nothing is printed meanwhile.
func (d *desk) menu(r *rand.Rand) {
	d.s.Type([]byte([]string{"", "queue ", "help ", "ls s", "q"}[r.Intn(5)]))
	vh.Settle()
	for i := 0; i < 2; i++ {
		d.s.Type([]byte("\t"))
		vh.Settle()
	}
	for i := 0; i < 4+r.Intn(10); i++ {
		d.s.Type([]byte([]string{"\x01", "\x05", "\x0e", "\x10", "\x0b", "\x06", "\x02", "\t", "\t", "\x1b[A", "\x1b[B", "\x1b[C", "\x1b[D", "\x1b[H", "\x1b[F", "x", "\x7f"}[r.Intn(17)]))
		vh.Settle()
	}
	d.s.Type([]byte("\x07"))
	vh.Settle()
	d.s.Type([]byte("\x15"))
	vh.Settle()
}

// commands is a scenario of commands of any kind.
func commands(n int, r *rand.Rand) vh.J {
	vnet.Reset()
	vh.Perturb(r)
	w := newWorld(n, r, 3)
	defer w.done()
	l := &log{}
	w.start(nil)
	go ssh.StartSSH("console", map[string]ssh.UserAuth{})
	vh.Settle()
	if r.Intn(3) == 0 {
		time.Sleep(time.Until(w.began) + time.Duration(r.Intn(3))*w.t)
	}
	// clients which do not read
	for i := 0; i < r.Intn(3); i++ {
		k, err := vcli.Join(w.addr, fmt.Sprint("slow", i), 1+r.Intn(3000))
		if err != nil {
			panic(err)
		}
		k.Subscribe(comm.Channel_AUDIO)
		k.Subscribe(comm.Channel_META)
		vh.Settle()
		k.Stall()
		defer k.Resume()
	}
	var desks []*desk
	for i := 0; i < 1+r.Intn(2); i++ {
		desks = append(desks, newDesk(fmt.Sprint("op", i)))
	}
	vols := map[float64]int{0.1: 0}
	found := func(f int) []int {
		if _, err := os.Stat(filepath.Join(w.dir, w.songs[f].Name)); err != nil {
			return []int{}
		}
		return []int{f + 1}
	}
	one := func(r *rand.Rand, tell bool) (vh.J, string, []string) {
		e := vh.J{"k": "run", "a": "none", "p": 0, "kp": "none", "songs": []int{}, "x": false}
		args := []string{}
		need := 0
		c := []string{"queue", "queue", "remove", "jump", "volume", "pause", "resume", "playlist", "help", "ls", "clear", "other", "queue", "resume"}[r.Intn(14)]
		if tell {
			c = []string{"jump", "jump", "playlist", "help", "ls"}[r.Intn(5)]
		}
		num := func(kind, at string) {
			if s, k, p := numeral(r); k != "" {
				args = append(args, s)
				e[kind], e[at] = k, p
			} else { // signs and zeros in front
				args = append(args, s)
				v, err := strconv.Atoi(s)
				if e[kind], e[at] = "num", v; err != nil {
					e[kind], e[at] = "bad", 0
				}
			}
		}
		switch c {
		case "queue":
			need = 2
			if r.Intn(8) == 0 {
				break
			}
			e["a"] = "num"
			switch r.Intn(5) {
			case 0:
				args = append(args, []string{"nothing.mp3", "[", "[a-", "\\", "..", "../none*", "*.txt", "/", "//x", "a/../../../etc/passwd", "*/*/*", "{}", ".", "\x7f"}[r.Intn(14)])
			default:
				f := r.Intn(len(w.songs))
				e["songs"] = found(f)
				args = append(args, w.songs[f].Name)
			}
			if r.Intn(2) == 0 {
				num("kp", "p")
			}
		case "remove", "jump":
			need = 1
			if r.Intn(8) > 0 {
				num("a", "p")
			}
		case "volume":
			need = 1
			switch r.Intn(8) {
			case 0:
			case 1:
				s, k, _ := numeral(r)
				if k != "bad" {
					k = "odd"
				}
				args = append(args, s)
				e["a"] = k
			case 2:
				args = append(args, []string{"NaN", "Inf", "-inf", "1e400", "-1", "1e-400", "0x1p-2", "1e10", ".5", "5."}[r.Intn(10)])
				e["a"] = "odd"
			default:
				v := float64(1+r.Intn(200)) / 128
				if _, ok := vols[v]; !ok {
					vols[v] = len(vols)
				}
				args = append(args, strconv.FormatFloat(v, 'f', -1, 64))
				e["a"], e["p"] = "num", vols[v]
			}
		case "help":
			need = 1
			if r.Intn(2) == 0 {
				args = append(args, []string{"queue", "jump", "clear", "exit", "help", "nothing", "é", "ls"}[r.Intn(8)])
			}
		case "ls":
			need = 1
			if r.Intn(2) == 0 {
				args = append(args, []string{"sub", "sub/", "süb dir", "none", "/", "..", "../..", ".", "sub/..", "f1.mp3", "*", "[", "\\"}[r.Intn(13)])
			}
		case "other":
			e["c"] = "unknown"
			c = []string{"Queue", "que", "foo", "é", "queue.", "-h", "\\queue", "q q", "exi", "%d%s", "'"}[r.Intn(11)]
		}
		if e["c"] == nil {
			e["c"] = c
		}
		if r.Intn(10) == 0 && len(args) >= need {
			for i := 0; i < 1+r.Intn(30); i++ {
				args = append(args, []string{"x", "1", "-1", "é", "\\", strings.Repeat("y", 300)}[r.Intn(6)])
			}
			if r.Intn(4) == 0 { // a very long line
				args = append(args, strings.Repeat("z", 1<<uint(9+r.Intn(5))))
			}
			e["x"] = true
		}
		return e, c, args
	}
	text := func(c string, args []string) string {
		s := shellEscape(c)
		for _, a := range args {
			s += " " + shellEscape(a)
		}
		return s
	}
	see := func(what string) {
		// with vcmd, as lines are not needed for that
		type state struct {
			list    []int
			playing bool
		}
		ch := make(chan state, 1)
		go func() {
			msg, _ := vcmd.Exec("playlist")
			s := state{[]int{}, strings.Contains(msg, "(Playing)")}
			for _, m := range entryRe.FindAllStringSubmatch(msg, -1) {
				k := -1
				for i := range w.songs {
					if w.songs[i].Name == strings.TrimRight(m[1], " ") {
						k = i + 1
					}
				}
				s.list = append(s.list, k)
			}
			ch <- s
		}()
		quiet()
		select {
		case s := <-ch:
			v := -2
			rs, _ := w.mon.Recs()
			if r.Intn(3) == 0 { // what a newcomer is told
				if k, err := vcli.Join(w.addr, "new", 1<<24); err == nil {
					k.Subscribe(comm.Channel(r.Intn(2)))
					quiet()
					rs, _ = k.Recs()
					k.Leave()
				}
			}
			for _, m := range rs {
				if x, ok := m.M.(*comm.SetVolumeRequest); ok {
					v = -2
					if id, ok := vols[x.Volume]; ok {
						v = id
					}
				}
			}
			l.add(vh.J{"k": what, "list": s.list, "playing": s.playing, "vol": v})
		case <-time.After(30 * time.Second):
			l.add(vh.J{"k": "wedged"})
		}
	}
	ok := true
	for i := 0; i < 14 && ok; i++ {
		switch k := r.Intn(12); {
		case k < 6: // a line at a terminal
			e, c, args := one(r, false)
			var out string
			if out, ok = desks[r.Intn(len(desks))].run(text(c, args)); ok {
				e["r"] = reply(c, out)
				l.add(e)
			}
		case k < 9 && vcmd.Known("queue"): // without a terminal
			e, c, args := one(r, false)
			if !vcmd.Known(c) {
				continue
			}
			ch := make(chan bool, 1)
			go func() { _, u := vcmd.Exec(c, args...); ch <- u }()
			select {
			case u := <-ch:
				e["r"] = map[bool]string{true: "result", false: "usage"}[u]
				l.add(e)
			case <-time.After(30 * time.Second):
				ok = false
			}
		case k == 9: // many at once
			var wg sync.WaitGroup
			var stuck int32
			for _, d := range desks {
				var lines []string
				for j := 0; j < 1+r.Intn(8); j++ {
					_, c, args := one(r, true)
					lines = append(lines, text(c, args))
				}
				wg.Add(1)
				d := d
				go func() {
					defer wg.Done()
					if _, ok := d.run(lines...); !ok {
						atomic.StoreInt32(&stuck, 1)
					}
				}()
			}
			wg.Wait()
			ok = stuck == 0
		case k == 10: // anything typed at a terminal of any size
			d := vssh.Open("cat")
			if r.Intn(2) == 0 {
				d.W, d.H = []int{0, 1, 2, 3, 400}[r.Intn(5)], r.Intn(3)
			}
			vh.Settle()
			for j := 0; j < 1+r.Intn(3); j++ {
				if r.Intn(3) == 0 {
					(&desk{s: d}).menu(r)
				}
				d.Type(junk(r))
				vh.Settle()
			}
			if r.Intn(2) == 0 {
				d.Close()
			}
			quiet()
			ok = atomic.LoadInt32(&vline.Suspended) == 0
			if ok {
				see("any") // its commands are unknown
			}
			continue
		default:
			if r.Intn(10) == 0 { // the music is gone
				os.RemoveAll(w.dir)
			}
			time.Sleep(time.Duration(r.Intn(8)) * w.t)
		}
		if ok {
			see("see")
		}
	}
	if !ok {
		l.add(vh.J{"k": "wedged"})
		return vh.J{"ev": l.ev}
	}
	if d := time.Until(w.began); d > 0 {
		time.Sleep(d)
	}
	before := w.filled()
	time.Sleep(4 * w.t)
	vh.Settle()
	_, served := newDesk("late").run("playlist")
	l.add(vh.J{"k": "flow", "n": w.filled() - before, "served": served})
	return vh.J{"ev": l.ev}
}
