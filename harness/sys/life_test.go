// The commands from their start to their end.
package sysh

import (
	"fmt"
	"math/rand"
	"net"
	"os"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/LogicalOverflow/music-sync/comm"
	infoer "github.com/LogicalOverflow/music-sync/verifmain/infoer"
	player "github.com/LogicalOverflow/music-sync/verifmain/player"
	server "github.com/LogicalOverflow/music-sync/verifmain/server"
	"github.com/LogicalOverflow/music-sync/verifrt"
	"github.com/LogicalOverflow/music-sync/verifrt/vcli"
	"github.com/LogicalOverflow/music-sync/verifrt/vh"
	"github.com/LogicalOverflow/music-sync/verifrt/vnet"
	"github.com/LogicalOverflow/music-sync/verifrt/voto"
	"github.com/LogicalOverflow/music-sync/verifrt/vscreen"
	"github.com/LogicalOverflow/music-sync/verifrt/vsignal"
	"github.com/LogicalOverflow/music-sync/verifrt/vssh"
	"github.com/gdamore/tcell"
	"github.com/golang/protobuf/proto"
	gossh "golang.org/x/crypto/ssh"
)

// life is a command running.
type life struct {
	log
	emu   sync.Mutex
	codes []int
}

func (f *life) end(code int) {
	f.emu.Lock()
	f.codes = append(f.codes, code)
	f.emu.Unlock()
}

// ended is how it ended, if it did.
func (f *life) ended() []int {
	f.emu.Lock()
	defer f.emu.Unlock()
	if len(f.codes) == 0 {
		return []int{}
	}
	return f.codes[:1:1]
}

// start runs a command.
func (f *life) start(main func(), args []string) {
	verifrt.OnExit = f.end
	os.Args = append([]string{"command"}, args...)
	go func() {
		main()
		f.end(0)
	}()
	while()
}

// while lets everything happen that is bound to happen.
func while() { time.Sleep(1500 * time.Millisecond) }

// given is a flag, as somebody may write it.
func given(r *rand.Rand, value string, names ...string) []string {
	n := strings.Repeat("-", 1+r.Intn(2)) + names[r.Intn(len(names))]
	if r.Intn(2) == 0 {
		return []string{n + "=" + value}
	}
	return []string{n, value}
}

// place is an address and the flags for it, which may be needless.
func place(r *rand.Rand, port int, hosts, ports []string) (string, []string) {
	host, args := "127.0.0.1", []string{}
	if r.Intn(2) == 0 {
		host = []string{"10.0.0.7", "0.0.0.0", "localhost", "music.example", "127.0.0.1", ""}[r.Intn(6)]
		args = append(args, given(r, host, hosts...)...)
	}
	if r.Intn(2) == 0 {
		if r.Intn(4) > 0 {
			port += 2 + r.Intn(40000)
		}
		args = append(args, given(r, strconv.Itoa(port), ports...)...)
	}
	return fmt.Sprintf("%s:%d", host, port), args
}

// odd are arguments which are no use, or ask for help.
func odd(r *rand.Rand, f []string) ([]string, string) {
	switch r.Intn(16) {
	case 0:
		return append(f, [][]string{{"--no-such-flag"}, {"--port", "many"}, {"--sample-rate", "1e3"}, {"--port"}, {"--port=", "x"}, {"-p", "1.5"}}[r.Intn(6)]...), "bad"
	case 1:
		return append(f, []string{"--help", "-h", "--version", "-v"}[r.Intn(4)]), "help"
	}
	return f, "serve"
}

func quiet() func() {
	old := os.Stdout
	os.Stdout, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	olde := os.Stderr
	os.Stderr = os.Stdout
	return func() { os.Stdout.Close(); os.Stdout, os.Stderr = old, olde }
}

func lifeOf(n int, r *rand.Rand) vh.J {
	begin()
	vsignal.Reset()
	vscreen.Reset()
	voto.Reset()
	vh.Perturb(r)
	defer quiet()()
	dir := scratch(n)
	defer os.RemoveAll(dir)
	if r.Intn(2) == 0 {
		return serverLife(dir, r)
	}
	return clientLife(dir, r)
}

func serverLife(dir string, r *rand.Rand) vh.J {
	makePairs()
	f := &life{}
	args := []string{"--logging", "off"}
	conf := vh.J{"kind": "server", "dir": "usable", "users": "good", "free": true, "audio": true}
	here, err := os.Getwd()
	if err != nil {
		panic(err)
	}
	os.Chdir(dir)
	defer os.Chdir(here)

	// the music
	name := "audio"
	if r.Intn(2) == 0 {
		name = []string{"music", "a b", "./x/../m", dir + "/abs", "."}[r.Intn(5)]
		args = append(args, given(r, name, "music-dir", "dir", "d")...)
	}
	os.MkdirAll("x", 0o755)
	switch {
	case r.Intn(8) == 0 && name != ".":
		conf["dir"] = "missing"
	case r.Intn(8) == 0 && name != ".":
		conf["dir"] = "file"
		os.WriteFile(name, []byte("music"), 0o644)
	default:
		os.MkdirAll(name, 0o755)
	}

	// the users
	name = "users.json"
	if r.Intn(2) == 0 {
		name = []string{"people", dir + "/u.json", "x/users.json"}[r.Intn(3)]
		args = append(args, given(r, name, "users-file", "users", "u")...)
	}
	us := []user{{name: "op", pw: "secret", key: -1}}
	if r.Intn(3) == 0 {
		conf["users"] = usersFile(name, us, r)
	} else {
		os.WriteFile(name, []byte(`{"op": {"password": "secret"}}`), 0o644)
	}

	// the host key
	name = "id_rsa"
	if r.Intn(2) == 0 {
		name = []string{"hk", dir + "/key", "x/hk"}[r.Intn(3)]
		args = append(args, given(r, name, "host-key", "key", "k")...)
	}
	conf["key"] = "none"
	if r.Intn(4) > 0 {
		os.WriteFile(name, host, 0o600)
		conf["key"] = hostName()
	}

	// the addresses
	at, more := place(r, 13333, []string{"address", "addr", "a"}, []string{"port", "p"})
	args = append(args, more...)
	oat, more := place(r, 13334, []string{"ssh-address", "ssh-addr", "sa"}, []string{"ssh-port", "sp"})
	args = append(args, more...)
	if oat == at {
		return vh.J{"ev": []vh.J{}}
	}
	conf["clients"], conf["operators"] = at, oat
	if r.Intn(8) == 0 {
		conf["free"] = false
		vnet.Listen("tcp", at)
	}
	if r.Intn(2) == 0 {
		args = append(args, "--stream-start-delay", "10000h")
	} else {
		args = append(args, "--sample-rate", "44100", "--stream-chunk-size", "22050", "--stream-start-delay", "10ms")
	}
	args, conf["how"] = odd(r, args)
	f.add(vh.J{"k": "start", "conf": conf})
	f.start(server.Main, args)
	f.state("", r)

	var ln net.Listener
	for i := r.Intn(6); i > 0 && len(f.ended()) == 0; i-- {
		switch k := r.Intn(7); k {
		case 0, 1:
			to := []string{at, at, at, "127.0.0.1:13333", oat}[r.Intn(5)]
			if to == oat {
				break
			}
			f.add(vh.J{"k": "client", "at": to, "served": served(to)})
		case 2, 3:
			s := vssh.Server()
			to := ""
			if s != nil {
				to = s.Addr
				if ln == nil {
					if ln, err = vnet.Listen("tcp", to); err != nil {
						panic(err)
					}
					go s.Serve(ln)
				}
			}
			key := offered(to)
			ok := attempt(to, "op", []gossh.AuthMethod{gossh.Password("secret")}, 0)
			f.add(vh.J{"k": "operator", "at": to, "key": key, "served": ok})
		case 4, 5:
			if c, err := vnet.Connect(at, 1<<16, 1<<16); err == nil {
				if k == 4 {
					b := make([]byte, r.Intn(60))
					r.Read(b)
					c.Write(b)
				} else {
					b := vcli.Encode(&comm.SubscribeChannelRequest{Channel: comm.Channel_AUDIO})
					c.Write(b[:r.Intn(len(b)+1)])
				}
				c.Close()
			}
		case 6:
			vnet.Exhaust(at, r.Intn(3))
		}
		while()
		f.state("", r)
	}
	if r.Intn(3) > 0 && len(f.ended()) == 0 {
		f.add(vh.J{"k": "interrupt"})
		if !vsignal.Raise(os.Interrupt) {
			f.end(130)
		}
		while()
		f.state("", r)
	}
	return vh.J{"ev": f.all()}
}

// state notes whether it still runs.
func (f *life) state(peer string, r *rand.Rand) {
	f.add(vh.J{"k": "state", "ended": f.ended(), "peer": peer, "terminal": vscreen.Ended()})
}

// served tells whether a client gets answers at an address.
func served(at string) bool {
	c, err := vnet.Connect(at, 1<<16, 1<<16)
	if err != nil {
		return false
	}
	defer c.Close()
	got := make(chan bool, 1)
	k := vcli.AttachWith(c, "client", func(m proto.Message) {
		if _, ok := m.(*comm.TimeSyncResponse); ok {
			got <- true
		}
	})
	k.Send(&comm.TimeSyncRequest{ClientSend: 1})
	select {
	case <-got:
		return true
	case <-time.After(time.Second):
		return false
	}
}

func hostName() string {
	k, err := gossh.ParsePrivateKey(host)
	if err != nil {
		panic(err)
	}
	return gossh.FingerprintSHA256(k.PublicKey())
}

// offered is the host key presented at an address.
func offered(at string) string {
	c, err := vnet.Connect(at, 1<<16, 1<<16)
	if err != nil {
		return ""
	}
	defer c.Close()
	defer time.AfterFunc(time.Minute, func() { c.Close() }).Stop()
	key := ""
	gossh.NewClientConn(c, at, &gossh.ClientConfig{User: "nobody", HostKeyCallback: func(_ string, _ net.Addr, k gossh.PublicKey) error {
		key = gossh.FingerprintSHA256(k)
		return nil
	}})
	return key
}

func clientLife(dir string, r *rand.Rand) vh.J {
	f := &life{}
	kind, main := "player", player.Main
	if r.Intn(2) == 0 {
		kind, main = "display", infoer.Main
	}
	args := []string{}
	if kind == "player" {
		args = append(args, "--logging", "off")
	}
	at, more := place(r, 13333, []string{"address", "addr", "a"}, []string{"port", "p"})
	args = append(args, more...)
	conf := vh.J{"kind": kind, "dir": "usable", "users": "good", "clients": at, "operators": "", "key": "none", "audio": true}
	var (
		mu    sync.Mutex
		peer  *vcli.Client
		where string
		pongs int
	)
	cut := -1 // close right away, after so many bytes
	if r.Intn(6) == 0 {
		cut = r.Intn(3) * r.Intn(40)
	}
	listen := func(a string) {
		l, err := vnet.Listen("tcp", a)
		if err != nil {
			return
		}
		go func() {
			for {
				c, err := l.Accept()
				if err != nil {
					return
				}
				mu.Lock()
				where = a
				mu.Unlock()
				if cut >= 0 {
					b := vcli.Encode(&comm.SetVolumeRequest{Volume: 0.5})
					if cut < len(b) {
						b = b[:cut]
					}
					c.Write(b)
					c.Close()
					continue
				}
				k := vcli.AttachWith(c.(*vnet.Conn), "client", nil)
				k.Watch(func(m interface{}) {
					if _, ok := m.(*comm.PongMessage); ok {
						mu.Lock()
						pongs++
						mu.Unlock()
					}
				})
				mu.Lock()
				peer = k
				mu.Unlock()
			}
		}()
	}
	conf["free"] = r.Intn(6) > 0 // for a client: somebody listens there
	if conf["free"] == true {
		listen(at)
	}
	if at != "127.0.0.1:13333" && r.Intn(2) == 0 {
		listen("127.0.0.1:13333")
	}
	if kind == "player" {
		if r.Intn(8) == 0 {
			voto.OpenError, conf["audio"] = true, false
		}
		if r.Intn(2) == 0 {
			voto.OpenDelay = time.Duration(r.Intn(int(500 * time.Millisecond)))
		}
	}
	args, conf["how"] = odd(r, args)
	f.add(vh.J{"k": "start", "conf": conf})
	f.start(main, args)
	state := func() {
		mu.Lock()
		defer mu.Unlock()
		f.state(where, r)
	}
	mu.Lock()
	if cut >= 0 && where != "" {
		f.add(vh.J{"k": "cut"})
	}
	mu.Unlock()
	state()
	cause := func(k string) {
		switch k {
		case "interrupt":
			f.add(vh.J{"k": k})
			if kind == "display" {
				vscreen.Key(tcell.KeyCtrlC, 0)
			} else if !vsignal.Raise(os.Interrupt) {
				f.end(130)
			}
		case "cut":
			f.add(vh.J{"k": k})
			if r.Intn(2) == 0 {
				peer.Conn.CloseWrite()
			} else {
				if r.Intn(2) == 0 {
					peer.Conn.PeerFails()
				}
				peer.Conn.Close()
			}
		}
	}
	start := int64(0)
	for i := r.Intn(10); i > 0 && len(f.ended()) == 0 && peer != nil; i-- {
		switch k := r.Intn(10); k {
		case 0:
			b := vcli.Encode(&comm.SetVolumeRequest{Volume: 0.25})
			peer.Raw(b[:r.Intn(len(b))])
			cause("cut")
		case 1:
			cause([]string{"cut", "interrupt"}[r.Intn(2)])
		case 2, 3:
			mu.Lock()
			pongs = 0
			mu.Unlock()
			n := 1 + r.Intn(3)
			for j := 0; j < n; j++ {
				peer.Send(&comm.PingMessage{})
			}
			while()
			mu.Lock()
			f.add(vh.J{"k": "ping", "n": n, "pongs": pongs})
			mu.Unlock()
		case 4:
			peer.Send(&comm.SetVolumeRequest{Volume: r.Float64()})
		case 5:
			peer.Send(&comm.TimeSyncResponse{ClientSendTime: r.Int63n(1e12), ServerRecvTime: r.Int63n(1e12), ServerSendTime: r.Int63n(1e12)})
		case 6:
			n := r.Intn(2000)
			peer.Send(&comm.QueueChunkRequest{StartTime: time.Now().UnixNano() + r.Int63n(2e9), ChunkId: start, SampleLow: make([]float64, n), SampleHigh: make([]float64, n)})
			start++
		case 7:
			peer.Send(&comm.NewSongInfo{FirstSampleOfSongIndex: uint64(r.Intn(1000)), SongFileName: "s", SongLength: int64(r.Intn(1000))})
		case 8:
			peer.Send(&comm.PauseInfo{Playing: r.Intn(2) == 0, ToggleSampleIndex: uint64(r.Intn(1000))})
		case 9:
			if kind == "display" {
				if r.Intn(2) == 0 {
					vscreen.Resize(1+r.Intn(100), 1+r.Intn(40))
				} else {
					vscreen.Key(tcell.KeyRune, 'q')
				}
			}
		}
		if r.Intn(2) == 0 {
			while()
			state()
		}
	}
	while()
	state()
	return vh.J{"ev": f.all()}
}
