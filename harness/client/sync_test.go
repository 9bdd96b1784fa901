package client

import (
	"math/rand"
	"time"

	"github.com/LogicalOverflow/music-sync/comm"
	"github.com/LogicalOverflow/music-sync/schedule"
	"github.com/LogicalOverflow/music-sync/timing"
	"github.com/LogicalOverflow/music-sync/verifrt/vh"
	"github.com/LogicalOverflow/music-sync/verifrt/vmono"
	"github.com/LogicalOverflow/music-sync/verifrt/vsync"
	"github.com/golang/protobuf/proto"
)

func micros(n int64) int {
	const far = 1000000000
	n /= 1000
	if n > far {
		return far
	}
	if n < -far {
		return -far
	}
	return int(n)
}

// timeSync is a scenario about the synchronisation of clocks.
func timeSync(n int, r *rand.Rand) vh.J {
	vh.Perturb(r)
	l := &log{}
	cycles := []int{1, 2, 3, 4, 7, 20}[r.Intn(6)]
	delay := time.Duration(1+r.Intn(40)) * time.Millisecond
	interval := time.Duration(cycles)*delay + time.Duration(200+r.Intn(5000))*time.Millisecond
	rounds := 3 + r.Intn(4)
	if n%40 == 7 { // as delivered
		cycles, delay, interval, rounds = schedule.TimeSyncCycles, schedule.TimeSyncCycleDelay, schedule.TimeSyncInterval, 2
	}
	schedule.TimeSyncCycles, schedule.TimeSyncCycleDelay, schedule.TimeSyncInterval = cycles, delay, interval
	d := difference(r)
	vmono.SetSkew(r.Int63n(1e15))
	t0 := time.Now()
	at := func() int { return int(time.Since(t0) / time.Microsecond) }
	look := func() {
		l.add(vh.J{"k": "look", "at": at(), "dev": micros(timing.GetSyncedTime() - timing.GetRawTime() - d)})
	}
	// how bad the network is in this scenario and round
	style := r.Intn(6)
	if n%40 == 7 {
		style = 2
	}
	pause := func(round int) time.Duration {
		ms := time.Millisecond
		switch style {
		case 0:
			return 0
		case 1:
			return 10 * ms
		case 2:
			return time.Duration(r.Intn(30000)) * time.Microsecond
		case 3: // now and then as late as the next round or later
			if r.Intn(2*cycles) == 0 {
				return time.Duration(r.Int63n(int64(2 * interval)))
			}
			return time.Duration(r.Intn(100)) * ms
		case 4:
			if round%2 == 0 {
				return interval - time.Duration(r.Intn(200))*ms
			}
			return time.Duration(r.Intn(20)) * ms
		default:
			return time.Duration(r.Intn(400)) * ms
		}
	}
	loss := 0
	if r.Intn(2) == 0 {
		loss = 2 + r.Intn(3*cycles)
	}
	var mu vsync.Mutex
	sent := 0
	var held []func()
	burst := r.Intn(4) * r.Intn(2)
	h := serve(func(h *host, m proto.Message) {
		q, ok := m.(*comm.TimeSyncRequest)
		if !ok {
			return
		}
		left, sentAt := raw(), at()
		mu.Lock()
		defer mu.Unlock()
		sent++
		id := sent
		out, back := pause((id-1)/cycles), pause((id-1)/cycles)
		lost := loss > 0 && r.Intn(loss) == 0
		l.add(vh.J{"k": "send", "at": sentAt, "q": id})
		go func() {
			time.Sleep(out - time.Duration(raw()-left))
			if lost {
				return
			}
			a := &comm.TimeSyncResponse{ClientSendTime: q.ClientSend, ServerRecvTime: raw() + d}
			out := raw() - left
			if id%3 == 0 {
				time.Sleep(time.Duration(id%7) * 300 * time.Microsecond) // the server is slow
			}
			a.ServerSendTime = raw() + d
			back0 := raw()
			time.Sleep(back)
			// one at a time, and what it leads to is awaited
			mu.Lock()
			defer mu.Unlock()
			held = append(held, func() {
				l.add(vh.J{"k": "answer", "at": at(), "q": id, "out": micros(out), "back": micros(raw() - back0)})
				h.peer.Send(a)
			})
			if burst > 0 && r.Intn(burst) > 0 {
				return // comes together with others
			}
			for _, f := range held {
				f()
			}
			held = nil
			time.Sleep(100 * time.Microsecond)
			look()
		}()
	})
	run(r.Intn(2) == 0, 1000)
	end := time.Duration(rounds)*(interval+time.Duration(cycles)*delay) + time.Second
	for time.Since(t0) < end {
		time.Sleep(time.Duration(r.Int63n(int64(interval))))
		mu.Lock()
		look()
		mu.Unlock()
	}
	mu.Lock()
	defer mu.Unlock()
	l.add(vh.J{"k": "over", "at": at()})
	if len(h.exit) > 0 {
		l.add(vh.J{"k": "exit", "at": at()})
	}
	return vh.J{"cycles": cycles, "wait": int(delay / time.Microsecond), "interval": int(interval / time.Microsecond), "ini": micros(-d), "ev": l.all()}
}
