package srv

import (
	"fmt"
	"math/rand"
	"sync"
	"time"

	"github.com/LogicalOverflow/music-sync/comm"
	"github.com/LogicalOverflow/music-sync/verifrt/vcli"
	"github.com/LogicalOverflow/music-sync/verifrt/vh"
	"github.com/LogicalOverflow/music-sync/verifrt/vmono"
	"github.com/LogicalOverflow/music-sync/verifrt/vnet"
)

// stamps is a scenario about the server's answers to requests to synchronise.
func stamps(n int, r *rand.Rand) vh.J {
	vnet.Reset()
	vh.Perturb(r)
	l := &log{}
	w := newWorld(n, r, 1)
	defer w.done()
	base := int64(vmono.Now())
	us := func(t int64) int { return int((t - base) / 1000) }
	w.start(nil)
	list := 0
	for k := 0; k < r.Intn(3); k++ {
		w.operate(1, 0, 0, &list)
	}
	w.setPlaying(true)
	time.Sleep(time.Until(w.began))
	var smu sync.Mutex
	asked := map[int64]int{} // what was asked when
	open := 0
	var ks []*vcli.Client
	for c := 0; c < 1+r.Intn(4); c++ {
		k, err := vcli.Join(w.addr, fmt.Sprint(c), 1<<uint(4+r.Intn(17)))
		if err != nil {
			panic(err)
		}
		ks = append(ks, k)
		k.Watch(func(m interface{}) {
			a, ok := m.(*comm.TimeSyncResponse)
			if !ok {
				return
			}
			come := us(int64(vmono.Now()))
			smu.Lock()
			defer smu.Unlock()
			at, echo := asked[a.ClientSendTime]
			delete(asked, a.ClientSendTime)
			open--
			clip := func(t int64) int {
				if d := t - base; d < 0 || d > 1e15 {
					return -1
				}
				return us(t)
			}
			l.add(vh.J{"k": "serve", "echo": echo, "asked": at, "recv": clip(a.ServerRecvTime), "send": clip(a.ServerSendTime), "come": come})
		})
		if r.Intn(2) == 0 {
			k.Subscribe(comm.Channel(r.Intn(2)))
		}
	}
	for i := 0; i < 10+r.Intn(40); i++ {
		if r.Intn(3) > 0 {
			time.Sleep(time.Duration(r.Int63n(int64(300 * time.Millisecond))))
		}
		k := ks[r.Intn(len(ks))]
		switch r.Intn(12) {
		case 0:
			k.Stall()
			continue
		case 1:
			k.Resume()
			continue
		}
		q := int64(r.Uint64())
		smu.Lock()
		asked[q] = us(int64(vmono.Now()))
		open++
		smu.Unlock()
		k.Send(&comm.TimeSyncRequest{ClientSend: q})
	}
	for _, k := range ks {
		k.Resume()
	}
	quiet()
	smu.Lock()
	defer smu.Unlock()
	l.add(vh.J{"k": "all", "open": open})
	return vh.J{"cycles": 1, "wait": 0, "interval": 0, "ini": 0, "ev": l.ev}
}
