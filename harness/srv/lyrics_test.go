// Songs with lyrics beside them, which change while the server runs.
package srv

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"time"

	"github.com/LogicalOverflow/music-sync/comm"
	"github.com/LogicalOverflow/music-sync/verifrt/vcli"
	"github.com/LogicalOverflow/music-sync/verifrt/vh"
	"github.com/LogicalOverflow/music-sync/verifrt/vnet"
)

func caption(r *rand.Rand) string {
	var b strings.Builder
	for i := r.Intn(4); i >= 0; i-- {
		b.WriteString([]string{"la", "Straße ", "", "лето", " ", "\"q\"", "夏", "a\\b", "e\u0301", "\n", "\t", "<&>", "\u2028", "𝄞", "%d", "null", "\x00", "\ufffd", "'",
			strings.Repeat("x", r.Intn(200)), "[[", "}"}[r.Intn(22)])
	}
	return b.String()
}

func document(r *rand.Rand) [][]atom {
	d := [][]atom{}
	t := int64(r.Intn(5000)) - 50
	n, m := r.Intn(6), r.Intn(5)
	switch r.Intn(8) {
	case 0:
		n = r.Intn(300)
	case 1:
		m = r.Intn(300)
	}
	for i := 0; i < n; i++ {
		l := []atom{}
		for j := r.Intn(m + 1); j > 0; j-- {
			switch r.Intn(20) {
			case 0:
				t -= int64(r.Intn(3000))
			case 1:
				l = append(l, atom{[]int64{0, 1 << 31, 1<<31 - 1, -1 << 31, 1<<53 + 1, -1, 1<<63 - 1, -1 << 63}[r.Intn(8)], caption(r)})
			default:
				t += int64(r.Intn(1400))
			}
			l = append(l, atom{t, caption(r)})
		}
		d = append(d, l)
	}
	return d
}

// spell writes a document as JSON in one of many ways.
func spell(d [][]atom, r *rand.Rand) []byte {
	var b bytes.Buffer
	switch r.Intn(4) {
	case 0:
		e := json.NewEncoder(&b)
		e.SetEscapeHTML(r.Intn(2) == 0)
		e.SetIndent("", []string{"", "\t", "    "}[r.Intn(3)])
		e.Encode(d)
		return b.Bytes()
	case 1:
		for _, c := range string(mustJSON(d)) {
			if c > 126 && c < 0x10000 {
				fmt.Fprintf(&b, "\\u%04x", c)
			} else {
				b.WriteRune(c)
			}
		}
		return b.Bytes()
	case 2: // caption first, more about each word
		b.WriteString(" [")
		for i, l := range d {
			if i > 0 {
				b.WriteString(" , ")
			}
			b.WriteString("[")
			for j, a := range l {
				if j > 0 {
					b.WriteString(",\r\n")
				}
				fmt.Fprintf(&b, `{"caption":%s,"by":["x",{}],"timestamp":%d}`, mustJSON(a.C), a.T)
			}
			b.WriteString("]")
		}
		b.WriteString("]\n\n")
		return b.Bytes()
	}
	return mustJSON(d)
}

func mustJSON(x interface{}) []byte {
	b, err := json.Marshal(x)
	if err != nil {
		panic(err)
	}
	return b
}

// said is a document as the trace has it.
func said(d [][]atom) [][][2]string {
	s := [][][2]string{}
	for _, l := range d {
		w := [][2]string{}
		for _, a := range l {
			w = append(w, [2]string{strconv.FormatInt(a.T, 10), strconv.QuoteToASCII(a.C)})
		}
		s = append(s, w)
	}
	return s
}

func sung(m *comm.NewSongInfo) [][][2]string {
	s := [][]atom{}
	for _, l := range m.Lyrics {
		w := []atom{}
		for _, a := range l.Atoms {
			w = append(w, atom{a.Timestamp, a.Caption})
		}
		s = append(s, w)
	}
	return said(s)
}

func lyrics(n int, r *rand.Rand) vh.J {
	vnet.Reset()
	vh.Perturb(r)
	w := newWorld(n, r, 1)
	defer w.done()
	l := &log{ev: []vh.J{}}
	index := func(name string) int {
		for i := range w.songs {
			if w.songs[i].Name == name {
				return i + 1
			}
		}
		return 0
	}
	put := func(i int) {
		p := filepath.Join(w.dir, w.songs[i].Name) + ".json"
		os.RemoveAll(p)
		doc := [][]atom{}
		switch r.Intn(8) {
		case 0:
			l.add(vh.J{"k": "put", "f": i + 1, "kind": "none", "doc": said(doc)})
		case 1:
			os.MkdirAll(p, 0o755)
			l.add(vh.J{"k": "put", "f": i + 1, "kind": "none", "doc": said(doc)})
		case 2:
			good := spell(document(r), r)
			bad := []string{"", "{", "[[{\"timestamp\":1,\"caption\":\"a\"}],", "[[{\"timestamp\":1,\"caption\":\"a\"}],[{\"timestamp\":\"x\"}]]",
				"[[{\"timestamp\":1,\"caption\":5}]]", "{\"timestamp\":1}", "[1]", "no json", "[[{\"timestamp\":7,\"caption\":\"a\"}] [] ]",
				"[[{\"timestamp\":1.5,\"caption\":\"a\"}]]", "[[{\"timestamp\":9223372036854775808,\"caption\":\"a\"}]]", "\"[]\"", "[[],[{\"timestamp\":1}],7]",
				"[[{\"timestamp\":1,\"caption\":\"a\"}],[{\"timestamp\":2,\"caption\":\"b\"},[]]]", string(bytes.TrimRight(good, " \n\r\t]"))}
			os.WriteFile(p, []byte(bad[r.Intn(len(bad))]), 0o644)
			l.add(vh.J{"k": "put", "f": i + 1, "kind": "bad", "doc": said(doc)})
		default:
			doc = document(r)
			os.WriteFile(p, spell(doc, r), 0o644)
			l.add(vh.J{"k": "put", "f": i + 1, "kind": "good", "doc": said(doc)})
		}
	}
	for i := range w.songs {
		if w.songs[i].Ok {
			put(i)
		}
	}
	w.start(func() {
		w.mon.Watch(func(m interface{}) {
			if x, ok := m.(*comm.NewSongInfo); ok {
				l.add(vh.J{"k": "song", "f": index(x.SongFileName), "at": int(x.FirstSampleOfSongIndex), "lyrics": sung(x)})
			}
		})
	})
	list := 0
	for k := 0; k < 1+r.Intn(4); k++ {
		w.operate(1, 0, 0, &list)
	}
	w.setPlaying(true)
	time.Sleep(time.Until(w.began))
	var late []*vcli.Client
	for k := 0; k < 3+r.Intn(8); k++ {
		time.Sleep(time.Duration(1+r.Intn(3)) * w.t / 2)
		if r.Intn(2) == 0 {
			time.Sleep(time.Duration(w.unit) * w.t / time.Duration(w.size))
		}
		vh.Settle()
		switch r.Intn(4) {
		case 0, 1:
			if i := r.Intn(len(w.songs)); w.songs[i].Ok {
				put(i)
			}
		case 2:
			w.operate(2, 2, 1, &list)
		case 3:
			c, err := vcli.Join(w.addr, fmt.Sprint("late", k), 1<<24)
			if err != nil {
				panic(err)
			}
			c.Subscribe(comm.Channel_META)
			late = append(late, c)
		}
		vh.Settle()
	}
	w.setPlaying(true)
	time.Sleep(time.Duration(2+r.Intn(3)) * time.Duration(w.unit) * w.t / time.Duration(w.size))
	vh.Settle()
	for _, c := range late {
		rs, _ := c.Recs()
		for _, m := range rs {
			if x, ok := m.M.(*comm.NewSongInfo); ok {
				l.add(vh.J{"k": "told", "f": index(x.SongFileName), "at": int(x.FirstSampleOfSongIndex), "lyrics": sung(x)})
			}
		}
	}
	return vh.J{"n": len(w.songs), "ev": l.ev}
}
