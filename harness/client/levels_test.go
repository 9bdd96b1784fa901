package client

import (
	"math"
	"math/rand"
	"sort"
	"time"

	"github.com/LogicalOverflow/music-sync/comm"
	"github.com/LogicalOverflow/music-sync/schedule"
	"github.com/LogicalOverflow/music-sync/verifrt/vh"
	"github.com/LogicalOverflow/music-sync/verifrt/vmono"
	"github.com/LogicalOverflow/music-sync/verifrt/voto"
	"github.com/golang/protobuf/proto"
)

const noSample = 99999

// level is a sample, in 1/32768.
func level(r *rand.Rand) int {
	switch r.Intn(12) {
	case 0:
		return []int{0, 1, -1, 32766, 32767, 32768, 32769, -32767, -32768, -32769, 65536, -65536, 98000, -98000}[r.Intn(14)]
	case 1:
		return r.Intn(131073) - 65536
	case 2:
		return r.Intn(41) - 20
	}
	return r.Intn(65537) - 32768
}

// loudness is a volume, in 1/128.
func loudness(r *rand.Rand) int {
	switch r.Intn(6) {
	case 0:
		if r.Intn(2) == 0 {
			return r.Intn(200)
		}
		return []int{0, 1, 127, 128, 129, 256, 1280, 5000}[r.Intn(8)]
	case 1:
		return r.Intn(1280)
	case 2:
		return 128
	}
	return r.Intn(129)
}

// levels is a scenario about what a player puts out.
func levels(n int, r *rand.Rand) vh.J {
	vh.Perturb(r)
	voto.Reset()
	rate := []int{10, 50, 100, 100, 200, 400}[r.Intn(6)]
	ms := time.Millisecond
	d := difference(r)
	vmono.SetSkew(r.Int63n(1e15))
	schedule.TimeSyncCycles, schedule.TimeSyncCycleDelay = 1+r.Intn(3), time.Duration(1+r.Intn(5))*ms
	schedule.TimeSyncInterval = time.Hour
	opens := time.Duration(0)
	if r.Intn(2) == 0 {
		opens = time.Duration(r.Intn(3000)) * ms
		voto.OpenDelay = opens
	}
	t0 := time.Now()
	at := func() int { return int(time.Since(t0) / time.Microsecond) }
	l := &log{}
	volume := func(h *host) {
		q := loudness(r)
		l.add(vh.J{"k": "volume", "w": at(), "q": q})
		h.peer.Send(&comm.SetVolumeRequest{Volume: float64(q) / 128})
	}
	joined := make(chan bool, 1)
	h := serve(func(h *host, m proto.Message) {
		if _, ok := m.(*comm.SubscribeChannelRequest); ok {
			joined <- true
		}
		answer(h, m, d)
	})
	run(false, rate)
	<-joined
	for i := 0; i <= r.Intn(4); i++ {
		volume(h)
	}
	settle()
	// the stream
	var low, high []int
	frames := 300 + r.Intn(500)
	edge := r.Intn(3)
	for len(low) < frames {
		for i := 1 + r.Intn(4*rate); i > 0; i-- {
			a, b := level(r), level(r)
			if edge == 0 && r.Intn(3) == 0 {
				a, b = level(r), []int{a, -a, 0, 32768}[r.Intn(4)]
			}
			low, high = append(low, a), append(high, b)
		}
		brk := 1 + r.Intn(rate)
		if r.Intn(3) == 0 {
			brk = 1 + r.Intn(3)
		}
		for i := 0; i < brk; i++ {
			low, high = append(low, noSample), append(high, noSample)
		}
	}
	for i := 0; i < 2*rate; i++ {
		low, high = append(low, noSample), append(high, noSample)
	}
	size := 1 + r.Intn(3*rate)
	if r.Intn(4) == 0 {
		size = rate
	}
	for len(low)%size != 0 {
		low, high = append(low, noSample), append(high, noSample)
	}
	if opens > time.Since(t0) {
		time.Sleep(opens - time.Since(t0))
	}
	time.Sleep(100 * ms)
	lead := time.Duration(500+r.Intn(3000)) * ms
	start := time.Now().Add(lead)
	raw0 := raw() + int64(lead)
	ahead := time.Duration(300+r.Intn(2000)) * ms
	now := func(x time.Time) { // until then, the volume may change
		for {
			w := time.Until(x)
			if w <= 0 {
				return
			}
			if r.Intn(3) > 0 {
				time.Sleep(w)
				return
			}
			time.Sleep(time.Duration(r.Int63n(int64(w)+1)) + time.Microsecond)
			for i := 0; i <= r.Intn(3)*r.Intn(2); i++ {
				volume(h)
			}
		}
	}
	off := func(k int) time.Duration { return time.Duration(int64(k*size) * int64(time.Second) / int64(rate)) }
	for k := 0; k*size < len(low); k++ {
		now(start.Add(off(k) - ahead))
		m := &comm.QueueChunkRequest{StartTime: raw0 + int64(off(k)) + d, ChunkId: int64(k), FirstSampleIndex: uint64(k * size)}
		for g := k * size; g < (k+1)*size; g++ {
			a, b := float64(low[g])/32768, float64(high[g])/32768
			if low[g] == noSample {
				a, b = math.NaN(), math.NaN()
			}
			m.SampleLow, m.SampleHigh = append(m.SampleLow, a), append(m.SampleHigh, b)
		}
		l.add(vh.J{"k": "chunk", "w": at(), "l": low[k*size : (k+1)*size], "r": high[k*size : (k+1)*size]})
		h.peer.Send(m)
	}
	now(start.Add(off(len(low)/size) + 300*ms))
	settle()
	ev := l.all()
	for _, w := range voto.Take() {
		lo, hi := []int{}, []int{}
		for i := 0; i+3 < len(w.Data); i += 4 {
			lo, hi = append(lo, sample(w.Data[i:])), append(hi, sample(w.Data[i+2:]))
		}
		ev = append(ev, vh.J{"k": "out", "w": int((w.At - t0.UnixNano()) / 1000), "l": lo, "r": hi})
	}
	sort.SliceStable(ev, func(i, j int) bool { return ev[i]["w"].(int) < ev[j]["w"].(int) })
	ev = append(ev, vh.J{"k": "end"})
	if len(h.exit) > 0 {
		ev = append(ev, vh.J{"k": "exit"})
	}
	return vh.J{"rate": rate, "size": size, "ev": ev}
}
