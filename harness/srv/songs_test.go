// Music directories of any content, named in any way.
package srv

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"time"

	"github.com/LogicalOverflow/music-sync/comm"
	"github.com/LogicalOverflow/music-sync/playback"
	"github.com/LogicalOverflow/music-sync/schedule"
	"github.com/LogicalOverflow/music-sync/ssh"
	"github.com/LogicalOverflow/music-sync/verifrt/vcli"
	"github.com/LogicalOverflow/music-sync/verifrt/vcmd"
	"github.com/LogicalOverflow/music-sync/verifrt/vh"
	"github.com/LogicalOverflow/music-sync/verifrt/vline"
	"github.com/LogicalOverflow/music-sync/verifrt/vnet"
	"github.com/LogicalOverflow/music-sync/verifrt/vssh"
)

var listedRe = regexp.MustCompile(`(?m)^  \[\d+\] (.*)$`)

func points(s string) []int {
	r := []int{}
	for _, c := range s {
		r = append(r, int(c))
	}
	return r
}

func comps(s string) [][]int {
	r := [][]int{}
	for _, c := range strings.Split(s, "/") {
		r = append(r, points(c))
	}
	return r
}

func pathsOf(names []string) [][][]int {
	r := [][][]int{}
	for _, n := range names {
		r = append(r, comps(n))
	}
	return r
}

// walk finds the files and directories below dir.
func walk(dir, rel string, files, dirs *[]string) {
	es, err := os.ReadDir(dir)
	if err != nil {
		return
	}
	for _, e := range es {
		p, n := dir+"/"+e.Name(), rel+e.Name()
		if e.IsDir() {
			*dirs = append(*dirs, n)
			walk(p, n+"/", files, dirs)
		} else if fi, err := os.Stat(p); err == nil && !fi.IsDir() {
			*files = append(*files, n)
		}
	}
}

func oddName(r *rand.Rand) string {
	return []string{"a", "b", "ab", "A", "a b", " a", "[a]", "a[b]", "[a-c]", "*", "a*", "?", "\\a", "a\\", "ä", "夏", "e\u0301", "-", "a%d", "100%",
		"..a", "'", "\"a\"", "a,b", "a.mp3", "#", "$HOME", "~", "{a,b}", "^a", "[^a]", "!a", "sub"}[r.Intn(33)]
}

func oddDir(r *rand.Rand) string {
	if r.Intn(6) == 0 {
		return "x.mp3"
	}
	return oddName(r)
}

func oddFile(r *rand.Rand) string {
	switch r.Intn(14) {
	case 0:
		return oddName(r)
	case 1:
		return oddName(r) + []string{".MP3", ".ogg", ".mp3 ", ".mp3.bak", "mp3", ".mp", ".Mp3"}[r.Intn(7)]
	case 2:
		return []string{".mp3", ".hidden.mp3", "..mp3", "...mp3"}[r.Intn(4)]
	}
	return oddName(r) + ".mp3"
}

// catalogue is a scenario about the names of songs.
func catalogue(n int, r *rand.Rand) vh.J {
	vnet.Reset()
	vh.Perturb(r)
	base := filepath.Join(os.Getenv("VH_DIR"), fmt.Sprintf("s%d", n))
	defer os.RemoveAll(base)
	name := []string{"music", "mu[s]ic", "mü sic", "*", "a\\b", "x.mp3", "[", "?", "..music", "music.", "a%sb"}[r.Intn(11)]
	root := base + "/" + name
	os.MkdirAll(root, 0o755)
	os.MkdirAll(base+"/other", 0o755)
	// what must never be found
	os.WriteFile(base+"/a.mp3", []byte("SONG 1 10"), 0o644)
	os.WriteFile(base+"/other/a.mp3", []byte("SONG 1 10"), 0o644)
	os.WriteFile(root+".mp3", []byte("SONG 1 10"), 0o644)
	if strings.ContainsAny(name, "[*?\\") { // a directory the music directory's name matches as a pattern
		for _, d := range []string{"music", "s", "ab", "mumu"} {
			os.MkdirAll(base+"/"+d, 0o755)
			os.WriteFile(base+"/"+d+"/a.mp3", []byte("SONG 1 10"), 0o644)
			os.WriteFile(base+"/"+d+"/only.mp3", []byte("SONG 1 10"), 0o644)
		}
	}
	home, _ := os.Getwd()
	defer os.Chdir(home)
	switch r.Intn(12) {
	case 0:
		playback.AudioDir = root + "/"
	case 1:
		playback.AudioDir = root + "//"
	case 2:
		playback.AudioDir = base + "/./" + name
	case 3:
		playback.AudioDir = base + "/other/../" + name + "/"
	case 4:
		os.Symlink(root, base+"/link")
		playback.AudioDir = base + "/link"
	case 5:
		os.Symlink(name, base+"/link")
		playback.AudioDir = base + "/link/"
	case 6:
		os.Chdir(base)
		playback.AudioDir = name
	case 7:
		os.Chdir(base)
		playback.AudioDir = "./" + name + "/"
	case 8:
		os.Chdir(root)
		playback.AudioDir = []string{".", "./", "../" + name}[r.Intn(3)]
	case 9:
		os.Chdir(base + "/other")
		playback.AudioDir = "../" + name
	default:
		playback.AudioDir = root
	}

	l := &log{}
	songs := map[string]*song{}
	var dirsMade = []string{""}
	id := 0
	add := func() {
		if r.Intn(4) == 0 && len(dirsMade) < 6 {
			d := dirsMade[r.Intn(len(dirsMade))] + oddDir(r) + "/"
			if os.MkdirAll(root+"/"+d, 0o755) == nil {
				dirsMade = append(dirsMade, d)
			}
			return
		}
		f := dirsMade[r.Intn(len(dirsMade))] + oddFile(r)
		if _, err := os.Lstat(root + "/" + f); err == nil {
			return
		}
		os.RemoveAll(root + "/" + f + ".json") // of a song removed
		switch r.Intn(16) {
		case 0: // a song elsewhere
			id++
			s := &song{Name: f, Len: 20 + r.Intn(200), Ok: true}
			os.WriteFile(fmt.Sprintf("%s/target%d", base, id), []byte(fmt.Sprintf("SONG %d %d\n                      ", id, s.Len)), 0o644)
			os.Symlink(fmt.Sprintf("%s/target%d", base, id), root+"/"+f)
			songs[f] = s
		case 1:
			os.Symlink("nowhere", root+"/"+f)
		default:
			id++
			s := &song{Name: f, Len: 20 + r.Intn(200), Ok: true}
			writeSong(root, id, s, r)
			songs[f] = s
		}
	}
	var files, dirs []string
	look := func() {
		files, dirs = nil, nil
		walk(root, "", &files, &dirs)
		l.add(vh.J{"k": "fs", "files": pathsOf(files), "dirs": pathsOf(dirs)})
	}
	for i := r.Intn(20); i >= 0; i-- {
		add()
	}
	if n%40 == 7 { // very many songs
		for i := 50 << uint(r.Intn(4)); i > 0; i-- {
			id++
			f := &song{Name: fmt.Sprintf("%strack %03d.mp3", dirsMade[r.Intn(len(dirsMade))], i), Len: 20, Ok: true}
			writeSong(root, id, f, r)
			songs[f.Name] = f
		}
	}
	look()

	schedule.SampleRate, schedule.StreamChunkSize, schedule.StreamChunkTime = 1000, 4000, 10*time.Millisecond
	schedule.NanBreakSize, schedule.StreamDelay, schedule.StreamStartDelay = 100, time.Second, time.Second
	sender, err := comm.StartServer("srv")
	if err != nil {
		panic(err)
	}
	mon, err := vcli.Join("srv", "monitor", 1<<24)
	if err != nil {
		panic(err)
	}
	mon.Subscribe(comm.Channel_META)
	vh.Settle()
	schedule.Server(sender)
	go ssh.StartSSH("console", map[string]ssh.UserAuth{})
	vh.Settle()
	vssh.Open("op")
	vh.Settle()

	pick := func(l []string) string {
		if len(l) == 0 {
			return "none"
		}
		return l[r.Intn(len(l))]
	}
	list := func() []string {
		msg, _ := vcmd.Exec("playlist")
		if i := strings.LastIndex(msg, "\nCurrent Song: "); i >= 0 {
			msg = msg[:i]
		}
		names := []string{}
		for _, m := range listedRe.FindAllStringSubmatch(msg, -1) {
			names = append(names, m[1])
		}
		return names
	}
	isSong := func(n string) bool { return strings.HasSuffix(n, ".mp3") }
	known := func() []string {
		s := []string{}
		for _, f := range files {
			if isSong(f) {
				s = append(s, f)
			}
		}
		return s
	}
	esc := shellEscape
	for k := 0; k < 16; k++ {
		switch r.Intn(8) {
		case 0: // something changes
			for i := r.Intn(3); i >= 0; i-- {
				add()
			}
			queued := map[string]bool{}
			for _, q := range list() {
				queued[q] = true
			}
			if f := pick(files); r.Intn(2) == 0 && !queued[f] {
				os.Remove(root + "/" + f)
				delete(songs, f)
				if s := songs[strings.TrimSuffix(f, ".json")]; s != nil {
					s.lyr = nil
				}
			}
			look()
		case 1, 2: // list
			d, out := "", false
			args := []string{}
			switch r.Intn(8) {
			case 0: // everything
			case 1:
				d = pick(files) // no directory
			case 2:
				d = "nowhere"
			case 3:
				out = true
				d = []string{"..", "../..", "../" + name, "../other", "a/../..", "sub/../../other", "../../../../../../etc", pick(dirs) + "/.."}[r.Intn(8)]
			default:
				d = pick(dirs)
			}
			dir := [][]int{}
			if d != "" {
				dir = comps(d)
			}
			switch r.Intn(6) {
			case 0:
				d += "/"
			case 1:
				d = "/" + d
			case 2:
				d = strings.Replace(d, "/", "//", -1)
			}
			if d != "" {
				args = append(args, d)
			}
			msg, ok := vcmdLs(args)
			names := [][]int{}
			if msg != "" {
				for _, n := range strings.Split(msg, "\n") {
					names = append(names, points(n))
				}
			}
			l.add(vh.J{"k": "ls", "dir": dir, "names": names, "out": out, "ok": ok})
		case 3, 4, 5: // queue
			var p string
			out := false
			switch r.Intn(10) {
			case 0, 1, 2:
				p = pick(known())
			case 3:
				out = true
				p = []string{"../a.mp3", "../*", "../other/a.mp3", "../*/*.mp3", "sub/../../a.mp3", "*/../../*.mp3", "..", "../*.mp3", "*/../*"}[r.Intn(9)]
			case 4:
				p = []string{"*", "*.mp3", "*/*", "*/*.mp3", "[", "[a", "a[", "a\\", "[]a]*", "[-a]*", "[a-]*", "*[", "[^", "[a-c]*", "*/[a", "\\", "*\\", "[a\\]*", "[[]*", "[^a]*", "[!a]*", "*/*/*.mp3", "only.mp3", "a.mp3"}[r.Intn(24)]
			case 5:
				if p = pick(dirs); isSong(p) && r.Intn(2) == 0 {
					break
				}
				p += "/*"
			default: // a pattern made from a name
				b := []rune(pick(files))
				for i := 0; i < 1+r.Intn(3); i++ {
					j := r.Intn(len(b))
					if b[j] == '/' {
						continue
					}
					m := []string{"?", "*", "[" + string(b[j]) + "]", "[^x]", "[a-z]", "\\" + string(b[j]), "", "**", "[b" + string(b[j]) + "-~]", "[\\" + string(b[j]) + "]"}[r.Intn(10)]
					b = append(b[:j:j], append([]rune(m), b[j+1:]...)...)
					if len(b) == 0 {
						b = []rune("*")
					}
				}
				if p = string(b); strings.HasPrefix(p, "/") || strings.HasSuffix(p, "/") || strings.Contains(p, "//") {
					p = "*"
				}
			}
			if _, err := os.Stat(root + "/" + p); err == nil && !isSong(p) { // neither name nor pattern
				continue
			}
			for _, c := range strings.Split(p, "/") {
				out = out || c == ".." || c == "."
			}
			before := list()
			vcmd.Exec("queue", p)
			after := list()
			if len(after) < len(before) || strings.Join(after[:len(before)], "\n") != strings.Join(before, "\n") {
				panic("the playlist changed otherwise")
			}
			l.add(vh.J{"k": "queue", "pat": comps(p), "got": pathsOf(after[len(before):]), "out": out})
		default: // complete
			var t string
			switch r.Intn(4) {
			case 0:
				t = pick(dirs)
				if r.Intn(2) == 0 {
					t += "/"
				}
				t = "ls " + part(r, t, esc)
			default:
				t = "queue " + part(r, pick(known()), esc)
			}
			got, _ := vline.Completer.Do([]rune(t), len([]rune(t)))
			offers := [][]int{}
			for _, o := range got {
				offers = append(offers, points(string(o)))
			}
			l.add(vh.J{"k": "complete", "line": points(t), "offers": offers})
		}
	}
	look()
	vcmd.Exec("resume")
	total := 0
	for _, q := range list() {
		if s := songs[q]; s != nil {
			total += s.Len
		}
	}
	time.Sleep(time.Second + time.Duration(2*32768/4000+total/4000+12)*schedule.StreamChunkTime)
	vh.Settle()
	type heard struct {
		at   uint64
		name string
		ok   bool
	}
	var hs []heard
	rs, _ := mon.Recs()
	for _, m := range rs {
		if x, ok := m.M.(*comm.NewSongInfo); ok {
			s := songs[x.SongFileName]
			hs = append(hs, heard{x.FirstSampleOfSongIndex, x.SongFileName, s != nil && int(x.SongLength) == s.Len && s.described(x)})
		}
	}
	sort.SliceStable(hs, func(i, j int) bool { return hs[i].at < hs[j].at })
	names, right := [][]int{}, true
	for i, h := range hs {
		if i < 60 {
			names = append(names, points(h.name))
		}
		right = right && h.ok
	}
	l.add(vh.J{"k": "played", "names": names, "right": right})
	return vh.J{"ev": l.ev}
}

// part is the beginning of a word, written.
func part(r *rand.Rand, s string, esc func(string) string) string {
	c := []rune(s)
	return esc(string(c[:r.Intn(len(c)+1)]))
}

func vcmdLs(args []string) (string, bool) { return vcmd.Exec("ls", args...) }
