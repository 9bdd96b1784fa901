package client

import (
	"encoding/binary"
	"math"
	"math/rand"
	"sort"
	"time"

	"github.com/LogicalOverflow/music-sync/comm"
	"github.com/LogicalOverflow/music-sync/schedule"
	"github.com/LogicalOverflow/music-sync/verifrt/vh"
	"github.com/LogicalOverflow/music-sync/verifrt/vmono"
	"github.com/LogicalOverflow/music-sync/verifrt/voto"
	"github.com/LogicalOverflow/music-sync/verifrt/vsync"
	"github.com/golang/protobuf/proto"
)

// stage is a stream of songs and breaks, cut into chunks.
type stage struct {
	rate, size int
	brk        []bool // by stream sample
	start      time.Time
}

func newStage(r *rand.Rand, rate, seconds int) *stage {
	s := &stage{rate: rate}
	total := rate * seconds
	if total > 32000 {
		total = 32000
	}
	span := func(lo, hi int) int { return lo + r.Intn(hi-lo+1) }
	brk := func() {
		n := span(1, rate)
		switch r.Intn(4) {
		case 0:
			n = span(1, 3)
		case 1:
			n = rate/10*span(1, 3) + span(-1, 1)
		}
		for i := 0; i < n; i++ {
			s.brk = append(s.brk, true)
		}
	}
	if r.Intn(2) == 0 {
		brk()
	}
	for len(s.brk) < total {
		n := span(1, 4*rate)
		switch r.Intn(5) {
		case 0:
			n = span(1, 3)
		case 1:
			n = rate / 10 * span(1, 5)
		}
		for i := 0; i < n; i++ {
			s.brk = append(s.brk, false)
		}
		brk()
	}
	s.brk = s.brk[:total]
	s.size = []int{rate / 10, rate, 2 * rate, span(rate/20+1, 2*rate), span(rate/20+1, 3*rate)}[r.Intn(5)]
	if s.size > 2000 {
		s.size = 2000
	}
	return s
}

func (s *stage) chunks() int { return len(s.brk) / s.size }

// due is when chunk k is to be played.
func (s *stage) due(k int) time.Time {
	return s.start.Add(time.Duration(int64(k*s.size) * int64(time.Second) / int64(s.rate)))
}

// breaks lists the runs of break samples in chunk k.
func (s *stage) breaks(k int) [][]int {
	r := [][]int{}
	for g := k * s.size; g < (k+1)*s.size; g++ {
		if !s.brk[g] {
			continue
		}
		if n := len(r); n > 0 && r[n-1][0]+r[n-1][1] == g {
			r[n-1][1]++
		} else {
			r = append(r, []int{g, 1})
		}
	}
	return r
}

func sample(b []byte) int { return int(int16(binary.LittleEndian.Uint16(b))) }

// play is a scenario about what a player does with its chunks, and when.
func play(n int, r *rand.Rand) vh.J {
	vh.Perturb(r)
	voto.Reset()
	rate := []int{200, 441, 500, 1000, 1000, 2000}[r.Intn(6)]
	st := newStage(r, rate, 4+r.Intn(16))
	ms := time.Millisecond
	d := difference(r)
	vmono.SetSkew(r.Int63n(1e15))
	cycles := 1 + r.Intn(4)
	schedule.TimeSyncCycles, schedule.TimeSyncCycleDelay = cycles, time.Duration(1+r.Intn(20))*ms
	schedule.TimeSyncInterval = time.Hour
	drift := int64(0)
	if r.Intn(3) == 0 { // the clocks do not go at the same speed
		schedule.TimeSyncInterval = time.Duration(1000+r.Intn(5000)) * ms
		drift = r.Int63n(60e6) - 30e6
	}
	opens := time.Duration(0)
	if r.Intn(2) == 0 {
		opens = time.Duration(r.Intn(3000)) * ms
		voto.OpenDelay = opens
	}
	slow := time.Duration(0) // how long it takes to set the clock
	if r.Intn(3) == 0 {
		slow = time.Duration(r.Intn(4000)) * ms
		schedule.TimeSyncInterval += slow // an answer counts in its round
	}
	t0 := time.Now()
	at := func() int { return int(time.Since(t0) / time.Microsecond) }
	l := &log{}
	mu := &vsync.Mutex{}
	skew := vmono.Now() - uint64(time.Now().UnixNano())
	_ = skew
	raw0 := raw()
	ahead := d // the server's clock, as the client should know it
	asked := 0
	var pending []*comm.TimeSyncRequest
	joined := make(chan bool, 1)
	setting := false
	h := serve(func(h *host, m proto.Message) {
		switch q := m.(type) {
		case *comm.SubscribeChannelRequest:
			h.peer.Send(&comm.SetVolumeRequest{Volume: 1})
			joined <- true
		case *comm.TimeSyncRequest:
			mu.Lock()
			defer mu.Unlock()
			asked++
			pending = append(pending, q)
			if asked%cycles != 0 || setting {
				return
			}
			setting = true
			go func() { // all of a round at once
				time.Sleep(slow)
				for { // not when something is put out
					w := voto.Take()
					if len(w) == 0 {
						break
					}
					p := (time.Now().UnixNano() - w[len(w)-1].At) % int64(50*ms)
					if int64(10*ms) < p && p < int64(40*ms) {
						break
					}
					time.Sleep(5 * ms)
				}
				mu.Lock()
				defer mu.Unlock()
				if asked > cycles {
					ahead = d + drift*int64(asked/cycles-1)
				}
				// true server time is raw + d; the client will believe in raw + ahead
				l.add(vh.J{"k": "sync", "at": at(), "dev": micros(ahead - d)})
				for _, q := range pending {
					now := q.ClientSend
					back := raw() - now
					h.peer.Send(&comm.TimeSyncResponse{ClientSendTime: q.ClientSend, ServerRecvTime: now + ahead, ServerSendTime: now + ahead + back})
				}
				pending, setting = nil, false
			}()
		}
	})
	run(false, rate)
	<-joined
	settle()
	// when the first chunk it gets is due: perhaps it comes in the middle of a song, perhaps too late
	lead := time.Duration(r.Intn(6000)) * ms
	k0 := r.Intn(1 + st.chunks()/3)
	st.start = time.Now().Add(lead).Add(-st.due(k0).Sub(st.start)).Truncate(time.Microsecond)
	ahead0 := 200 + r.Intn(3000) // chunks come this many milliseconds before their time
	late := r.Intn(3) == 0
	for j := 0; j < r.Intn(3)*r.Intn(2); j++ { // the device stops
		x := st.start.Add(time.Duration(r.Intn(len(st.brk))) * time.Second / time.Duration(rate))
		y := time.Duration(10+r.Intn(2500)) * ms
		voto.Stall(x.UnixNano(), y)
		break
	}
	for k := k0; k < st.chunks(); k++ {
		x := st.due(k).Add(-time.Duration(ahead0+r.Intn(100)) * ms)
		if late && r.Intn(6) == 0 {
			x = x.Add(time.Duration(r.Intn(2*ahead0)) * ms)
		}
		time.Sleep(time.Until(x))
		m := &comm.QueueChunkRequest{StartTime: st.due(k).Sub(t0).Nanoseconds() + raw0 + d, ChunkId: int64(k), FirstSampleIndex: uint64(k * st.size)}
		for g := k * st.size; g < (k+1)*st.size; g++ {
			v := float64(g+1) / 32768
			if st.brk[g] {
				v = math.NaN()
			}
			m.SampleLow, m.SampleHigh = append(m.SampleLow, v), append(m.SampleHigh, -v)
		}
		l.add(vh.J{"k": "chunk", "at": at(), "c": vh.J{"at": at(), "start": int(st.due(k).Sub(t0) / time.Microsecond), "first": k * st.size,
			"n": st.size, "brk": st.breaks(k), "sure": time.Since(t0) > opens+2*ms}})
		h.peer.Send(m)
	}
	time.Sleep(time.Until(st.due(st.chunks()).Add(time.Duration(r.Intn(3)*1500+400) * ms)))
	settle()
	ev := l.all()
	over := at()
	out := []vh.J{}
	for _, w := range voto.Take() {
		wat := int((w.At - t0.UnixNano()) / 1000)
		if wat >= over {
			break
		}
		lastG, cnt := -3, 0
		off := 0
		flush := func(g int) {
			switch x := wat + off*1000000/rate; {
			case cnt == 0:
			case g == -1:
				out = append(out, vh.J{"k": "rest", "at": x, "w": wat})
			case g == -2:
				out = append(out, vh.J{"k": "noise", "at": x, "w": wat})
			default:
				out = append(out, vh.J{"k": "play", "at": x, "g": g, "n": cnt, "w": wat})
			}
			off += cnt
		}
		from := 0
		for i := 0; i+3 < len(w.Data); i += 4 {
			lo, hi := sample(w.Data[i:]), sample(w.Data[i+2:])
			g := -2
			if lo == 0 && hi == 0 {
				g = -1
			} else if lo > 0 && hi == -lo {
				g = lo - 1
			}
			if g < 0 && g == lastG || g >= 0 && lastG >= 0 && g == lastG+1 {
				cnt++
			} else {
				flush(from)
				from, cnt = g, 1
			}
			lastG = g
		}
		flush(from)
	}
	for _, e := range ev {
		e["w"] = e["at"]
	}
	if x, y := voto.Stalled(); x > 0 { // the write in which it happened was made before
		x, y = (x-t0.UnixNano())/1000, (y-t0.UnixNano())/1000
		ev = append(ev, vh.J{"k": "trouble", "at": int(x), "to": int(y), "w": int(x) + 1})
	}
	ev = append(ev, out...)
	sort.SliceStable(ev, func(i, j int) bool { return ev[i]["w"].(int) < ev[j]["w"].(int) })
	ev = append(ev, vh.J{"k": "over", "at": over})
	if len(h.exit) > 0 {
		ev = append(ev, vh.J{"k": "exit"})
	}
	return vh.J{"rate": rate, "size": st.size, "lead": int(lead / ms), "opens": micros(int64(opens)), "slow": int(slow / ms), "ev": ev}
}
