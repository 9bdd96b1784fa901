// What the commands write about themselves, with any logging flags.
package sysh

import (
	"fmt"
	"math/rand"
	"os"
	"regexp"
	"runtime"
	"strings"
	"sync"
	"time"

	"github.com/LogicalOverflow/music-sync/comm"
	logs "github.com/LogicalOverflow/music-sync/logging"
	player "github.com/LogicalOverflow/music-sync/verifmain/player"
	"github.com/LogicalOverflow/music-sync/verifrt/vcli"
	"github.com/LogicalOverflow/music-sync/verifrt/vh"
	"github.com/LogicalOverflow/music-sync/verifrt/vmono"
	"github.com/LogicalOverflow/music-sync/verifrt/vnet"
	"github.com/LogicalOverflow/music-sync/verifrt/vssh"
	"github.com/golang/protobuf/proto"
	gossh "golang.org/x/crypto/ssh"
)

var components = []string{"comm", "play", "shed", "ssh", "time"}
var levels = []string{"TRACE", "DEBUG", "INFO", "WARN", "ERROR", "FATAL"}
var short = []string{"TRC", "DBG", "INF", "WRN", "ERR", "FTL"}
var packages = map[string]string{"comm": "comm", "playback": "play", "schedule": "shed", "ssh": "ssh", "timing": "time"}

var initially = logs.DefaultCutoffLevel

// sink is an output; it notes which component writes what.
type sink struct {
	mu   sync.Mutex
	text strings.Builder
	by   []string // the component behind each write, "" if unknown
	all  []string
}

const module = "github.com/LogicalOverflow/music-sync/"

func (s *sink) Write(b []byte) (int, error) {
	by := ""
	pc := make([]uintptr, 40)
	fs := runtime.CallersFrames(pc[:runtime.Callers(2, pc)])
	for {
		f, more := fs.Next()
		if strings.HasPrefix(f.Function, module) && !strings.HasPrefix(f.Function, module+"logging.") {
			p := strings.TrimPrefix(f.Function, module)
			if i := strings.IndexAny(p, "./"); i > 0 {
				by = packages[p[:i]]
			}
			break
		}
		if !more {
			break
		}
	}
	s.mu.Lock()
	s.text.Write(b)
	s.by = append(s.by, by)
	s.all = append(s.all, string(b))
	s.mu.Unlock()
	return len(b), nil
}

var head = regexp.MustCompile(`^\[(\w+)\] \[([^\]]*)\] `)

func levelOf(name string) int {
	for i := range levels {
		if name == levels[i] || name == short[i] {
			return i
		}
	}
	return -1
}

func levelFlag(r *rand.Rand) string {
	n := ""
	switch r.Intn(9) {
	case 0:
		return []string{"off", "OFF", "Off", "oFf"}[r.Intn(4)]
	case 1:
		return []string{"none", "all", "verbose", "warning", "information", "2", "tra", "err or", "debugg", "трейс"}[r.Intn(10)]
	case 2, 3, 4:
		n = short[r.Intn(6)]
	default:
		n = levels[r.Intn(6)]
	}
	switch r.Intn(3) {
	case 0:
		return n
	case 1:
		return strings.ToLower(n)
	}
	b := []byte(strings.ToLower(n))
	for i := range b {
		if r.Intn(2) == 0 {
			b[i] -= 32
		}
	}
	return string(b)
}

func logging(n int, r *rand.Rand) vh.J {
	begin()
	vh.Perturb(r)
	dir := scratch(n)
	defer os.RemoveAll(dir)
	makePairs()
	l := &log{}
	out, errs := &sink{}, &sink{}
	logs.DefaultCutoffLevel = initially
	logs.OutputWriter, logs.ErrorWriter = out, errs
	os.WriteFile(dir+"/users", []byte(`{"u":{"password":"p"}}`), 0o644)
	os.WriteFile(dir+"/host", host, 0o600)
	given := []vh.J{}
	var flags []string
	flag := func(name, v string) {
		dash := []string{"-", "--"}[r.Intn(2)]
		if r.Intn(2) == 0 {
			flags = append(flags, dash+name+"="+v)
		} else {
			flags = append(flags, dash+name, v)
		}
	}
	for _, c := range components {
		if r.Intn(2) == 0 {
			v := levelFlag(r)
			flag(c+"-logging", v)
			given = append(given, vh.J{"of": c, "level": strings.ToLower(v)})
		}
	}
	if r.Intn(2) == 0 {
		v := levelFlag(r)
		flag("logging", v)
		given = append(given, vh.J{"of": "", "level": strings.ToLower(v)})
	}
	l.add(vh.J{"k": "start", "given": given})
	isServer := r.Intn(3) > 0
	const at = "127.0.0.1:13333"
	if isServer {
		args := []string{"--music-dir", dir, "--users-file", dir + "/users", "--host-key", dir + "/host", "--stream-chunk-size", "100", "--sample-rate", "500"}
		if r.Intn(2) == 0 {
			startServer(append(args, flags...)...)
		} else {
			startServer(append(append([]string{}, flags...), args...)...)
		}
	} else {
		ln, err := vnet.Listen("tcp", at)
		if err != nil {
			panic(err)
		}
		go func() {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			var k *vcli.Client
			k = vcli.AttachWith(c.(*vnet.Conn), "server", func(m proto.Message) {
				if q, ok := m.(*comm.TimeSyncRequest); ok {
					now := int64(vmono.Now())
					k.Send(&comm.TimeSyncResponse{ClientSendTime: q.ClientSend, ServerRecvTime: now, ServerSendTime: now})
				}
			})
			k.Send(&comm.SetVolumeRequest{Volume: 0.5})
			k.Send(&comm.PingMessage{})
			k.Send(&comm.QueueChunkRequest{StartTime: 5, ChunkId: 3, SampleLow: []float64{1}, SampleHigh: []float64{1}})
		}()
		os.Args = append([]string{"player"}, flags...)
		go player.Main()
		settle()
	}
	loggers := map[string][]logs.Logger{}
	names := append([]string{"x", "other", "lo"}, components...)
	for _, c := range names {
		loggers[c] = []logs.Logger{logs.GetLogger(c), logs.GetLogger(c)}
	}
	type message struct {
		by, text, id string
		level        int
	}
	var mu sync.Mutex
	var said []message
	say := func(id int, by string, level, how int, text string) {
		g := loggers[by][how%2]
		m := message{by, text, fmt.Sprintf("<%d>", id), level}
		m.text = m.id + text
		switch f := how / 2 % 2; level {
		case 0:
			[]func(){func() { g.Trace(m.text) }, func() { g.Tracef("%s%s", m.id, text) }}[f]()
		case 1:
			[]func(){func() { g.Debug(m.text) }, func() { g.Debugf("%s%s", m.id, text) }}[f]()
		case 2:
			[]func(){func() { g.Info(m.text) }, func() { g.Infof("%s%s", m.id, text) }}[f]()
		case 3:
			[]func(){func() { g.Warn(m.text) }, func() { g.Warnf("%s%s", m.id, text) }}[f]()
		case 4:
			[]func(){func() { g.Error(m.text) }, func() { g.Errorf("%s%s", m.id, text) }}[f]()
		case 5:
			[]func(){func() { g.Fatal(m.text) }, func() { g.Fatalf("%s%s", m.id, text) }}[f]()
		}
		mu.Lock()
		said = append(said, m)
		mu.Unlock()
	}
	var wg sync.WaitGroup
	id := 0
	for k := 10 + r.Intn(40); k > 0; k-- {
		id++
		a, b, c, d := id, names[r.Intn(len(names))], r.Intn(6), r.Intn(4)
		e := []string{"", "text", "%d %s %", "{lvl}", "{message}{name}", "ünïcode", "two\nlines", "[INF] [comm] x", "tab\t", strings.Repeat("long ", r.Intn(900)), "100%"}[r.Intn(11)]
		wg.Add(1)
		go func() { defer wg.Done(); say(a, b, c, d, e) }()
		if r.Intn(2) == 0 {
			wg.Wait()
		}
	}
	wg.Wait()
	if isServer && r.Intn(2) == 0 { // the components have something to say themselves
		if s := vssh.Server(); s != nil {
			ln, _ := vnet.Listen("tcp", "ssh")
			go s.Serve(ln)
			settle()
			attempt("ssh", "u", []gossh.AuthMethod{gossh.Password([]string{"p", "q"}[r.Intn(2)])}, 0)
		}
		if c, err := vnet.Connect(at, 1<<16, 1<<16); err == nil {
			c.Write([]byte{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12})
			c.Close()
		}
		if k, err := vcli.Join("srv", "k", 1<<16); err == nil {
			k.Subscribe(comm.Channel_AUDIO)
			k.Send(&comm.PingMessage{})
		}
	}
	time.Sleep(time.Duration(r.Intn(8)) * time.Second)
	settle()
	normal, bad := out.text.String(), errs.text.String()
	for _, m := range said {
		j := vh.J{"k": "say", "by": m.by, "level": m.level, "out": strings.Count(normal, m.id), "err": strings.Count(bad, m.id)}
		named := true
		for _, t := range []string{normal, bad} {
			i := strings.Index(t, m.id)
			if i < 0 {
				continue
			}
			h := head.FindStringSubmatch(t[strings.LastIndex(t[:i], "\n")+1:])
			named = named && h != nil && levelOf(h[1]) == m.level && strings.TrimSpace(h[2]) == strings.TrimSpace((m.by + "    ")[:4])
			named = named && strings.HasPrefix(t[i:], m.text+"\n")
		}
		j["whole"] = named
		l.add(j)
	}
	for where, s := range map[string]*sink{"out": out, "err": errs} {
		for i, t := range s.all {
			h := head.FindStringSubmatch(t)
			if h == nil || levelOf(h[1]) < 0 || s.by[i] == "" {
				continue
			}
			l.add(vh.J{"k": "own", "by": s.by[i], "level": levelOf(h[1]), "where": where, "named": strings.TrimSpace(h[2])})
		}
	}
	return vh.J{"ev": l.all()}
}
