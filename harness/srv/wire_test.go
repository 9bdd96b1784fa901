// Messages cross connections that fragment, by several senders, or damaged.
package srv

import (
	"bytes"
	"fmt"
	"io"
	"math/rand"
	"net"
	"sync"
	"time"

	"github.com/LogicalOverflow/music-sync/comm"
	"github.com/LogicalOverflow/music-sync/verifrt"
	"github.com/LogicalOverflow/music-sync/verifrt/vcli"
	"github.com/LogicalOverflow/music-sync/verifrt/vh"
	"github.com/LogicalOverflow/music-sync/verifrt/vnet"
	"github.com/golang/protobuf/proto"
)

type sink struct{ f func(proto.Message) }

func (s sink) HandleTimeSyncRequest(m *comm.TimeSyncRequest, _ net.Conn)                 { s.f(m) }
func (s sink) HandleTimeSyncResponse(m *comm.TimeSyncResponse, _ net.Conn)               { s.f(m) }
func (s sink) HandleQueueChunkRequest(m *comm.QueueChunkRequest, _ net.Conn)             { s.f(m) }
func (s sink) HandlePingMessage(m *comm.PingMessage, _ net.Conn)                         { s.f(m) }
func (s sink) HandlePongMessage(m *comm.PongMessage, _ net.Conn)                         { s.f(m) }
func (s sink) HandleSetVolumeRequest(m *comm.SetVolumeRequest, _ net.Conn)               { s.f(m) }
func (s sink) HandleSubscribeChannelRequest(m *comm.SubscribeChannelRequest, _ net.Conn) { s.f(m) }
func (s sink) HandleNewSongInfo(m *comm.NewSongInfo, _ net.Conn)                         { s.f(m) }
func (s sink) HandleChunkInfo(m *comm.ChunkInfo, _ net.Conn)                             { s.f(m) }
func (s sink) HandlePauseInfo(m *comm.PauseInfo, _ net.Conn)                             { s.f(m) }

func chop(r *rand.Rand) func() int {
	or := rand.New(rand.NewSource(r.Int63()))
	max := []int{1, 2, 7, 9, 64, 1000, 1 << 16}[r.Intn(7)]
	return func() int { return 1 + or.Intn(max) }
}

func key(m proto.Message) string { return proto.MessageName(m) + "|" + bytesOf(m) }

// inOrder: messages of these kinds are handed on in the order they arrive.
func inOrder(m proto.Message) bool {
	switch m.(type) {
	case *comm.QueueChunkRequest, *comm.SetVolumeRequest:
		return true
	}
	return false
}

func wireMsg(b int, r *rand.Rand) proto.Message {
	switch r.Intn(5) {
	case 0:
		return &comm.TimeSyncRequest{ClientSend: int64(b)}
	case 1:
		return &comm.SubscribeChannelRequest{Channel: comm.Channel(b)}
	case 2:
		k := r.Intn(6)
		if k == 0 && r.Intn(8) == 0 {
			fs := make([]float64, 60000)
			for i := range fs {
				fs[i] = r.Float64()
			}
			return &comm.QueueChunkRequest{ChunkId: int64(b), SampleLow: fs, SampleHigh: fs}
		}
		m, _ := msg(k, b, r)
		return m
	}
	m, _ := msg(r.Intn(2), b, r)
	return m
}

// damage makes a frame that differs from that of m.
func damage(m proto.Message, r *rand.Rand) []byte {
	inner, _ := proto.Marshal(m)
	name := proto.MessageName(m)
	z := vcli.Deflate(inner)
	f := vcli.Encode(m)
	switch r.Intn(14) {
	case 0, 1:
		f[r.Intn(len(f))] ^= 1 << uint(r.Intn(8))
		return f
	case 2:
		for i := 0; i < 1+r.Intn(5); i++ {
			f[r.Intn(len(f))] = byte(r.Intn(256))
		}
		return f
	case 3: // the compressed data ends early
		return vcli.Frame(vcli.Envelope(name, z[:r.Intn(len(z))]))
	case 4: // a bit of the compressed data is wrong
		z[r.Intn(len(z))] ^= 1 << uint(r.Intn(8))
		return vcli.Frame(vcli.Envelope(name, z))
	case 5: // the checksum is wrong
		z[len(z)-1-r.Intn(4)] ^= byte(1 + r.Intn(255))
		return vcli.Frame(vcli.Envelope(name, z))
	case 6:
		g := make([]byte, r.Intn(60))
		r.Read(g)
		return vcli.Frame(vcli.Envelope(name, vcli.Deflate(g)))
	case 7:
		return vcli.Frame(vcli.Envelope(name, inner))
	case 8:
		n := []string{"", "comm.Nothing", "nothing", "comm.QueueChunkReques", "comm.queueChunkRequest", ".comm.PingMessage", "comm"}[r.Intn(7)]
		return vcli.Frame(vcli.Envelope(n, z))
	case 9: // too large
		size := []uint64{1 << 63, 1<<64 - 1, 1<<63 - 1, 1 << 62, 1 << 50, 1 << 34}[r.Intn(6)]
		for i := 0; i < 8; i++ {
			f[i] = byte(size >> (8 * uint(i)))
		}
		return f
	case 10: // the envelope is cut, with its length adjusted
		e := f[8:]
		return vcli.Frame(e[:r.Intn(len(e))])
	case 11:
		return append(f[:0:0], f[1:]...)
	case 12:
		g := make([]byte, 8+r.Intn(60))
		r.Read(g)
		if r.Intn(2) == 0 {
			copy(g, vcli.Frame(make([]byte, len(g)-8))[:8])
		}
		return g
	default: // inner data cut
		if len(inner) == 0 {
			return vcli.Frame(nil)
		}
		return vcli.Frame(vcli.Envelope(name, vcli.Deflate(inner[:len(inner)-1-r.Intn(len(inner))])))
	}
}

func wire(n int, r *rand.Rand) vh.J {
	vnet.Reset()
	comm.NewClientHandler = nil
	l := &log{}
	vh.Perturb(r)
	switch n % 3 {
	case 0:
		return wireIn(l, r, n)
	case 1:
		return wireOut(l, r)
	}
	return wireServer(l, r)
}

func finish(l *log, nm int, refs int, ord []bool, bad bool) vh.J {
	l.mu.Lock()
	defer l.mu.Unlock()
	return vh.J{"ev": l.ev, "nm": nm, "refs": refs, "ord": ord, "err": bad}
}

// wireIn: a client of the code reads what is sent to it.
func wireIn(l *log, r *rand.Rand, n int) vh.J {
	ls, _ := vnet.Listen("tcp", "srv")
	nm := 3 + r.Intn(12)
	cut := 1 + r.Intn(nm) // the message damaged, if any
	if r.Intn(4) == 0 {
		cut = 0
	}
	msgs := make([]proto.Message, nm+1)
	keys := map[string]int{}
	ord := []bool{}
	var data [][]byte
	var tail []byte
	for i := 1; i <= nm; i++ {
		msgs[i] = wireMsg(i, r)
		keys[key(msgs[i])] = i
		ord = append(ord, inOrder(msgs[i]))
		f := vcli.Encode(msgs[i])
		if i == cut {
			f = damage(msgs[i], r)
		}
		data = append(data, f)
		if cut > 0 && i >= cut {
			tail = append(tail, f...)
		}
	}
	truncated := cut > 0 && r.Intn(3) == 0
	if truncated { // or it just ends in the middle
		f := vcli.Encode(msgs[cut])
		f = f[:r.Intn(len(f))]
		data = append(data[:cut-1], f)
		tail = f
	}
	// what a reader that checks nothing more than it must makes of the damaged part
	refs := []string{}
	bad := false
	if cut > 0 {
		for rd := bytes.NewReader(tail); ; {
			m, err := vcli.Decode(rd)
			if err != nil {
				bad = err == vcli.ErrFormat
				break
			}
			refs = append(refs, key(m))
		}
	}
	var conn *vnet.Conn
	ready := make(chan struct{})
	go func() {
		c, _ := ls.Accept()
		conn = c.(*vnet.Conn)
		close(ready)
	}()
	used := map[int]bool{}
	got := map[int]bool{}
	var gmu sync.Mutex
	exited := false
	verifrt.OnExit = func(int) { exited = true }
	h := sink{func(m proto.Message) {
		gmu.Lock()
		defer gmu.Unlock()
		id := keys[key(m)]
		ref := 0
		if id == 0 || (cut > 0 && id >= cut) || got[id] {
			for i, k := range refs {
				if k == key(m) && !used[i] {
					used[i] = true
					ref = i + 1
					break
				}
			}
		}
		if ref == 0 && id > 0 {
			got[id] = true
		}
		l.add(vh.J{"k": "got", "m": id, "ref": ref})
	}}
	if _, err := comm.ConnectToServer("srv", comm.TypedPackageHandler{TypedPackageHandlerInterface: h}); err != nil {
		panic(err)
	}
	<-ready
	if r.Intn(3) > 0 {
		conn.FragmentPeer(chop(r), nil)
	}
	for i, f := range data {
		damaged := cut > 0 && i+1 >= cut
		if !damaged {
			l.add(vh.J{"k": "begin", "m": i + 1})
		} else if i+1 == cut {
			l.add(vh.J{"k": "damage"})
		}
		for len(f) > 0 {
			k := len(f)
			if r.Intn(2) == 0 {
				k = 1 + r.Intn(k)
			}
			if _, err := conn.Write(f[:k]); err != nil {
				break
			}
			f = f[k:]
			if r.Intn(3) == 0 {
				time.Sleep(time.Duration(r.Intn(1000)))
			}
		}
		if !damaged {
			l.add(vh.J{"k": "end", "m": i + 1})
		}
	}
	time.Sleep(5 * time.Second)
	vh.Settle()
	l.add(vh.J{"k": "calm", "closed": conn.PeerClosed() || exited})
	conn.CloseWrite()
	time.Sleep(5 * time.Second)
	vh.Settle()
	l.add(vh.J{"k": "over", "closed": conn.PeerClosed() || exited})
	return finish(l, nm, len(refs), ord, bad)
}

// wireOut: senders of the code share a connection whose other end is read here.
func wireOut(l *log, r *rand.Rand) vh.J {
	ls, _ := vnet.Listen("tcp", "srv")
	senders := 1 + r.Intn(5)
	var sender comm.MessageSender
	var conn *vnet.Conn
	server := r.Intn(2) == 0
	verifrt.OnExit = func(int) {}
	if server { // several broadcasts to the same client
		ls.Close()
		s, err := comm.StartServer("srv")
		if err != nil {
			panic(err)
		}
		sender = s
		capacity := []int{1 << 20, 10, 300}[r.Intn(3)]
		if conn, err = vnet.Connect("srv", capacity, 1<<20); err != nil {
			panic(err)
		}
		conn.Write(vcli.Encode(&comm.SubscribeChannelRequest{Channel: 0}))
		conn.Write(vcli.Encode(&comm.SubscribeChannelRequest{Channel: 1}))
		vh.Settle()
	} else {
		ready := make(chan struct{})
		go func() {
			c, _ := ls.Accept()
			conn = c.(*vnet.Conn)
			close(ready)
		}()
		s, err := comm.ConnectToServer("srv", comm.TypedPackageHandler{TypedPackageHandlerInterface: sink{func(proto.Message) {}}})
		if err != nil {
			panic(err)
		}
		sender = s
		<-ready
	}
	if senders == 1 && r.Intn(2) == 0 {
		conn.FragmentPeer(nil, chop(r))
	}
	if r.Intn(2) == 0 {
		conn.Fragment(chop(r), nil)
	}
	keys := map[string]int{}
	var plan [][]proto.Message
	ord := []bool{}
	id := 0
	for s := 0; s < senders; s++ {
		var p []proto.Message
		for i := 0; i < 1+r.Intn(5); i++ {
			id++
			m := wireMsg(id, r)
			keys[key(m)] = id
			p = append(p, m)
			ord = append(ord, true)
		}
		plan = append(plan, p)
	}
	done := make(chan struct{})
	go func() {
		defer close(done)
		for {
			m, err := vcli.Decode(conn)
			if err != nil {
				if err == vcli.ErrFormat || err == io.ErrUnexpectedEOF {
					l.add(vh.J{"k": "garbled"})
				}
				return
			}
			l.add(vh.J{"k": "got", "m": keys[key(m)], "ref": 0})
		}
	}()
	var wg sync.WaitGroup
	for s := range plan {
		wg.Add(1)
		seed := r.Int63()
		go func(p []proto.Message) {
			defer wg.Done()
			sr := rand.New(rand.NewSource(seed))
			for _, m := range p {
				if sr.Intn(2) == 0 {
					time.Sleep(time.Duration(sr.Intn(200)))
				}
				l.add(vh.J{"k": "begin", "m": keys[key(m)]})
				err := sender.SendMessage(m)
				l.add(vh.J{"k": "end", "m": keys[key(m)]})
				if err != nil {
					l.add(vh.J{"k": "garbled"})
				}
			}
		}(plan[s])
	}
	wg.Wait()
	vh.Settle()
	conn.FragmentPeer(nil, nil)
	l.add(vh.J{"k": "calm", "closed": false})
	conn.Close()
	time.Sleep(time.Second)
	vh.Settle()
	l.add(vh.J{"k": "over", "closed": conn.PeerClosed()})
	return finish(l, id, 0, ord, false)
}

// wireServer: the server reads requests and answers; a damaged one ends the connection.
func wireServer(l *log, r *rand.Rand) vh.J {
	if _, err := comm.StartServer("srv"); err != nil {
		panic(err)
	}
	c, err := vnet.Connect("srv", 1<<20, 1<<20)
	if err != nil {
		panic(err)
	}
	c.FragmentPeer(chop(r), nil)
	ord := []bool{}
	got := 0
	k := vcli.AttachWith(c, "k", func(m proto.Message) {
		if x, ok := m.(*comm.TimeSyncResponse); ok {
			l.add(vh.J{"k": "got", "m": int(x.ClientSendTime), "ref": 0})
			got++
		}
	})
	nm := 2 + r.Intn(8)
	cut := 0
	if r.Intn(3) > 0 {
		cut = 1 + r.Intn(nm)
	}
	bad, refs := false, 0
	for i := 1; i <= nm; i++ {
		ord = append(ord, false)
	}
	for i := 1; i <= nm; i++ {
		m := &comm.TimeSyncRequest{ClientSend: int64(i)}
		if i != cut {
			l.add(vh.J{"k": "begin", "m": i})
			k.Send(m)
			l.add(vh.J{"k": "end", "m": i})
			if r.Intn(3) == 0 {
				k.Send(&comm.PingMessage{})
			}
			continue
		}
		var f []byte
		for { // here only damage that is seen at once
			f = damage(m, r)
			if _, err := vcli.Decode(bytes.NewReader(f)); err == vcli.ErrFormat {
				break
			}
		}
		time.Sleep(5 * time.Second) // let the answers out
		vh.Settle()
		l.add(vh.J{"k": "damage"})
		bad = true
		k.Raw(f)
		for j := i + 1; j <= nm; j++ {
			k.Send(&comm.TimeSyncRequest{ClientSend: int64(j)})
		}
		break
	}
	time.Sleep(5 * time.Second)
	vh.Settle()
	l.add(vh.J{"k": "calm", "closed": c.PeerClosed()})
	c.CloseWrite()
	time.Sleep(5 * time.Second)
	vh.Settle()
	l.add(vh.J{"k": "over", "closed": c.PeerClosed()})
	_ = fmt.Sprint()
	return finish(l, nm, refs, ord, bad)
}
