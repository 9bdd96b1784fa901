// Clients come, subscribe, misbehave and go while messages are broadcast.
package srv

import (
	"fmt"
	"math"
	"math/rand"
	"regexp"
	"runtime"
	"strconv"
	"sync"
	"time"

	"github.com/LogicalOverflow/music-sync/comm"
	"github.com/LogicalOverflow/music-sync/util"
	"github.com/LogicalOverflow/music-sync/verifrt/vcli"
	"github.com/LogicalOverflow/music-sync/verifrt/vh"
	"github.com/LogicalOverflow/music-sync/verifrt/vnet"
	"github.com/golang/protobuf/proto"
)

type log struct {
	mu sync.Mutex
	ev []vh.J
}

func (l *log) add(j vh.J) {
	l.mu.Lock()
	l.ev = append(l.ev, j)
	l.mu.Unlock()
}

// msg makes message number b of kind ty: which channels it belongs to depends on the kind.
func msg(ty, b int, r *rand.Rand) (proto.Message, []int) {
	n := 0
	switch r.Intn(6) {
	case 0:
		n = 400 + r.Intn(2000)
	case 1, 2:
		n = r.Intn(40)
	}
	fs := make([]float64, n)
	for i := range fs {
		fs[i] = float64(r.Intn(1000))
		if r.Intn(20) == 0 {
			fs[i] = math.NaN()
		}
	}
	switch ty {
	case 0:
		return &comm.QueueChunkRequest{ChunkId: int64(b), StartTime: r.Int63(), SampleLow: fs, SampleHigh: fs, FirstSampleIndex: r.Uint64()}, []int{0}
	case 1:
		return &comm.SetVolumeRequest{Volume: float64(b)}, []int{0, 1}
	case 2:
		return &comm.ChunkInfo{FirstSampleIndex: uint64(b), StartTime: -r.Int63(), ChunkSize: r.Uint64()}, []int{1}
	case 3:
		s := &comm.NewSongInfo{FirstSampleOfSongIndex: uint64(b), SongFileName: "söng\x00 " + fmt.Sprint(r.Intn(1000)), SongLength: r.Int63(),
			Metadata: &comm.NewSongInfo_SongMetadata{Title: "t", Artist: "", Album: "ä"}}
		for i := 0; i < r.Intn(4); i++ {
			l := &comm.NewSongInfo_SongLyricsLine{}
			for j := 0; j < r.Intn(4); j++ {
				l.Atoms = append(l.Atoms, &comm.NewSongInfo_SongLyricsAtom{Timestamp: r.Int63(), Caption: "word "})
			}
			s.Lyrics = append(s.Lyrics, l)
		}
		return s, []int{1}
	case 4:
		return &comm.PauseInfo{ToggleSampleIndex: uint64(b), Playing: r.Intn(2) == 0}, []int{1}
	default:
		return &comm.TimeSyncResponse{ClientSendTime: int64(b), ServerRecvTime: r.Int63(), ServerSendTime: -r.Int63()}, []int{}
	}
}

// number finds out which message this is.
func number(m proto.Message) int {
	switch x := m.(type) {
	case *comm.QueueChunkRequest:
		return int(x.ChunkId)
	case *comm.SetVolumeRequest:
		return int(x.Volume)
	case *comm.ChunkInfo:
		return int(x.FirstSampleIndex)
	case *comm.NewSongInfo:
		return int(x.FirstSampleOfSongIndex)
	case *comm.PauseInfo:
		return int(x.ToggleSampleIndex)
	case *comm.TimeSyncResponse:
		return int(x.ClientSendTime)
	case *comm.TimeSyncRequest:
		return int(x.ClientSend)
	case *comm.SubscribeChannelRequest:
		return int(x.Channel)
	}
	return 0
}

func bytesOf(m proto.Message) string {
	b, _ := proto.Marshal(m)
	return string(b)
}

var named = regexp.MustCompile(`#(\d+)`)

// failed lists the connections an error names (0: none).
func failed(err error) []int {
	r := []int{}
	if err == nil {
		return r
	}
	each := []error{err}
	if m, ok := err.(util.MultiError); ok {
		each = m.Errors
	} else if m, ok := err.(*util.MultiError); ok {
		each = m.Errors
	} else if all := named.FindAllStringSubmatch(err.Error(), -1); len(all) > 1 {
		for _, a := range all {
			k, _ := strconv.Atoi(a[1])
			r = append(r, k)
		}
		return r
	}
	for _, e := range each {
		if a := named.FindStringSubmatch(e.Error()); a != nil {
			k, _ := strconv.Atoi(a[1])
			r = append(r, k)
		} else {
			r = append(r, 0)
		}
	}
	return r
}

type fanProfile struct {
	ops, clients           int
	join, sub, leave, cast int
	fail, bad              int
}

var fanProfiles = map[string]fanProfile{
	"fanout": {ops: 40, clients: 5, join: 4, sub: 6, leave: 3, cast: 10},
	"faults": {ops: 30, clients: 6, join: 5, sub: 7, leave: 1, cast: 8, bad: 6},
	"errors": {ops: 30, clients: 9, join: 5, sub: 4, leave: 1, cast: 8, fail: 4},
}

func fanout(n int, r *rand.Rand) vh.J {
	p := fanProfiles[vh.Profile]
	vnet.Reset()
	comm.NewClientHandler = nil
	l := &log{}
	vh.Perturb(r)
	sender, err := comm.StartServer("srv")
	if err != nil {
		panic(err)
	}
	var before, after runtime.MemStats
	runtime.ReadMemStats(&before)

	type client struct {
		k         *vcli.Client
		left, bad bool
		conn      string
	}
	var cs []*client
	sent := map[int]string{}
	var smu sync.Mutex
	var wg sync.WaitGroup
	slow := vh.Profile == "faults"
	bomb := slow && n%16 == 5

	join := func() {
		i := len(cs) + 1
		capacity := 1 << 20
		if slow {
			capacity = []int{16, 100, 4096, 1 << 16}[r.Intn(4)]
		}
		l.add(vh.J{"k": "join", "c": i})
		c, err := vnet.Connect("srv", capacity, 1<<30)
		if err != nil {
			panic(err)
		}
		if r.Intn(3) == 0 {
			or := rand.New(rand.NewSource(r.Int63()))
			c.Fragment(func() int { return 1 + or.Intn(64) }, func() int { return 1 << 30 })
		}
		k := vcli.AttachWith(c, fmt.Sprint(i), func(m proto.Message) {
			if _, ok := m.(*comm.PongMessage); ok {
				return // the answer to a ping
			}
			b := number(m)
			smu.Lock()
			same := sent[b] == bytesOf(m)
			smu.Unlock()
			l.add(vh.J{"k": "recv", "c": i, "b": b, "same": same})
		})
		cs = append(cs, &client{k: k, conn: c.Name})
	}
	calm := func(d time.Duration) {
		time.Sleep(d)
		vh.Settle()
		l.add(vh.J{"k": "calm"})
	}
	pick := func() (int, *client) {
		for t := 0; t < 20 && len(cs) > 0; t++ {
			i := r.Intn(len(cs))
			if !cs[i].left && !cs[i].bad {
				return i + 1, cs[i]
			}
		}
		return 0, nil
	}
	nb := 0
	cast := func() {
		nb++
		b := nb
		m, chs := msg(r.Intn(6), b, r)
		if slow && r.Intn(4) == 0 {
			big := make([]float64, 3000)
			for i := range big {
				big[i] = r.Float64()
			}
			m, chs = &comm.QueueChunkRequest{ChunkId: int64(b), SampleLow: big, SampleHigh: big}, []int{0}
		}
		smu.Lock()
		sent[b] = bytesOf(m)
		smu.Unlock()
		wg.Add(1)
		call := func() {
			defer wg.Done()
			l.add(vh.J{"k": "begin", "b": b, "chs": chs})
			if slow {
				wg.Add(1)
				go func() {
					defer wg.Done()
					time.Sleep(5 * time.Second)
					l.add(vh.J{"k": "due", "b": b})
				}()
			}
			err := sender.SendMessage(m)
			l.add(vh.J{"k": "end", "b": b, "ok": err == nil, "errs": failed(err)})
		}
		if r.Intn(3) == 0 && !slow {
			call()
		} else {
			go call()
		}
	}
	misbehave := func(i int, c *client) {
		l.add(vh.J{"k": "bad", "c": i})
		c.bad = true
		k := c.k
		switch r.Intn(13) {
		case 12: // so many connections that the next cannot be accepted for a moment
			vnet.Exhaust("srv", 1+r.Intn(2))
		case 0, 1, 2:
			k.Stall()
		case 3:
			k.Stall()
			wg.Add(1)
			d := time.Duration(1+r.Intn(30)) * time.Second
			go func() { defer wg.Done(); time.Sleep(d); k.Resume() }()
		case 4:
			f := vcli.Encode(&comm.SubscribeChannelRequest{Channel: 1})
			k.Raw(f[:r.Intn(len(f))])
			if r.Intn(2) == 0 {
				k.Conn.Close()
			}
		case 5:
			b := make([]byte, r.Intn(100))
			r.Read(b)
			k.Raw(b)
		case 6:
			size := []uint64{1 << 62, 1<<63 - 1, 1 << 63, 1<<64 - 1, 1 << 33, 1 << 40}[r.Intn(6)]
			h := make([]byte, 8)
			for j := range h {
				h[j] = byte(size >> (8 * uint(j)))
			}
			k.Raw(append(h, 1, 2, 3))
		case 7:
			k.Raw(vcli.Frame(vcli.Envelope([]string{"comm.Nope", "", "comm.Envelope", "google.protobuf.FileDescriptorSet", "int32"}[r.Intn(5)], vcli.Deflate([]byte{8, 1}))))
		case 8:
			ms := []proto.Message{&comm.SetVolumeRequest{Volume: -7}, &comm.QueueChunkRequest{SampleLow: []float64{1}}, &comm.NewSongInfo{}, &comm.PauseInfo{},
				&comm.ChunkInfo{}, &comm.PongMessage{}, &comm.TimeSyncResponse{}, &comm.SubscribeChannelRequest{Channel: 17}, &comm.SubscribeChannelRequest{Channel: -1}, &comm.Envelope{}}
			for j := 0; j < 1+r.Intn(4); j++ {
				k.Send(ms[r.Intn(len(ms))])
			}
		case 9:
			f := vcli.Encode(&comm.SubscribeChannelRequest{Channel: 1})
			f[8+r.Intn(len(f)-8)] ^= 1 << uint(r.Intn(8))
			k.Raw(f)
		case 10:
			k.Raw(vcli.Frame(nil))
			k.Raw(vcli.Frame(vcli.Envelope("comm.PingMessage", []byte("no zlib data"))))
		case 11:
			k.Stall()
			for j := 0; j < 200; j++ {
				k.Send(&comm.PingMessage{})
			}
		}
	}
	if bomb {
		join()
		join()
		calm(0)
		l.add(vh.J{"k": "bad", "c": 1})
		cs[0].bad = true
		cs[0].k.Raw(vcli.Frame(vcli.Envelope("comm.SetVolumeRequest", bombData())))
		calm(0)
	}
	for k := 0; k < p.ops; k++ {
		w := r.Intn(p.join + p.sub + p.leave + p.cast + p.fail + p.bad)
		switch {
		case w < p.join:
			alive := 0
			for _, c := range cs {
				if !c.left {
					alive++
				}
			}
			if alive < p.clients {
				join()
			}
		case w < p.join+p.sub:
			if i, c := pick(); c != nil {
				ch := r.Intn(2)
				for j := 0; j < 1+r.Intn(3)*r.Intn(2); j++ {
					l.add(vh.J{"k": "sub", "c": i, "ch": ch})
					c.k.Subscribe(comm.Channel(ch))
				}
			}
		case w < p.join+p.sub+p.leave:
			if i, c := pick(); c != nil {
				l.add(vh.J{"k": "leave", "c": i})
				c.left = true
				c.k.Leave()
			}
		case w < p.join+p.sub+p.leave+p.cast:
			cast()
		case w < p.join+p.sub+p.leave+p.cast+p.fail:
			if i, c := pick(); c != nil && !c.bad {
				l.add(vh.J{"k": "failing", "c": i})
				c.k.Conn.PeerFails()
				c.bad = true
				l.add(vh.J{"k": "fail", "c": i})
			}
		default:
			if i, c := pick(); c != nil {
				misbehave(i, c)
			}
		}
		switch r.Intn(4) {
		case 0:
			calm(map[bool]time.Duration{true: 2 * time.Second}[slow])
		case 1:
			time.Sleep(time.Duration(r.Intn(100)))
		}
	}
	calm(5 * time.Second)
	if slow { // whatever happened, who comes now is served
		join()
		i := len(cs)
		for ch := 0; ch < 2; ch++ {
			l.add(vh.J{"k": "sub", "c": i, "ch": ch})
			cs[i-1].k.Subscribe(comm.Channel(ch))
		}
		calm(3 * time.Second)
	}
	cast()
	calm(6 * time.Second)
	for i, c := range cs {
		c.k.Resume()
		if c.left {
			continue
		}
		if c.bad || r.Intn(2) == 0 {
			l.add(vh.J{"k": "leave", "c": i + 1})
			c.left = true
			c.k.Leave()
		}
	}
	calm(5 * time.Second)
	cast()
	wg.Wait()
	calm(30 * time.Second)
	runtime.ReadMemStats(&after)
	// what room there was for those who left is used again before looking for what is left of them
	crowd := []*vcli.Client{}
	for i := 0; i < 2*len(cs)+8; i++ {
		c, err := vnet.Connect("srv", 1<<20, 1<<30)
		if err != nil {
			break
		}
		k := vcli.AttachWith(c, "crowd", func(proto.Message) {})
		for ch := 0; ch < 2; ch++ {
			k.Subscribe(comm.Channel(ch))
		}
		crowd = append(crowd, k)
	}
	calm(3 * time.Second)
	for _, k := range crowd {
		k.Leave()
	}
	crowd = nil
	calm(3 * time.Second)
	kept := []int{}
	for round := 0; round < 40; round++ {
		runtime.GC()
		for j := 0; j < 20; j++ {
			runtime.Gosched()
		}
		kept = kept[:0]
		for i, c := range cs {
			if c.left && !vnet.Freed(c.conn) {
				kept = append(kept, i+1)
			}
		}
		if len(kept) == 0 {
			break
		}
	}
	l.add(vh.J{"k": "over", "kept": kept, "mb": int((after.TotalAlloc - before.TotalAlloc) >> 20)})
	l.mu.Lock()
	defer l.mu.Unlock()
	return vh.J{"ev": l.ev, "nc": len(cs), "nb": nb, "strict": !slow}
}
