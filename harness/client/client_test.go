// Players and displays run as they are, against a server of the harness.
package client

import (
	"fmt"
	"math/rand"
	"net"
	"os"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/LogicalOverflow/music-sync/comm"
	infoer "github.com/LogicalOverflow/music-sync/verifmain/infoer"
	player "github.com/LogicalOverflow/music-sync/verifmain/player"
	"github.com/LogicalOverflow/music-sync/verifrt"
	"github.com/LogicalOverflow/music-sync/verifrt/vcli"
	"github.com/LogicalOverflow/music-sync/verifrt/vh"
	"github.com/LogicalOverflow/music-sync/verifrt/vmono"
	"github.com/LogicalOverflow/music-sync/verifrt/vnet"
	"github.com/golang/protobuf/proto"
	"github.com/urfave/cli"
)

func TestHarness(t *testing.T) {
	vh.Run(t, func(i int, r *rand.Rand) vh.J {
		switch vh.Profile {
		case "sync":
			return timeSync(i, r)
		case "play":
			return play(i, r)
		case "display":
			return display(i, r)
		case "levels":
			return levels(i, r)
		}
		panic("no such profile")
	})
}

type log struct {
	mu sync.Mutex
	ev []vh.J
}

func (l *log) add(j vh.J) { l.mu.Lock(); l.ev = append(l.ev, j); l.mu.Unlock() }
func (l *log) all() []vh.J {
	l.mu.Lock()
	defer l.mu.Unlock()
	return append([]vh.J{}, l.ev...)
}

// host is the server the client connects to.
type host struct {
	l    net.Listener
	peer *vcli.Client // its end of the connection
	exit []int        // how the client ended, if it did
}

const address = "127.0.0.1:13333"

// serve accepts one client and has on called for each of its messages.
func serve(on func(h *host, m proto.Message)) *host {
	vnet.Reset()
	verifrt.OnExit = nil
	h := &host{}
	verifrt.OnExit = func(code int) { h.exit = append(h.exit, code) }
	cli.OsExiter = verifrt.Exit
	l, err := vnet.Listen("tcp", address)
	if err != nil {
		panic(err)
	}
	h.l = l
	go func() {
		c, err := l.Accept()
		if err != nil {
			return
		}
		h.peer = vcli.AttachWith(c.(*vnet.Conn), "client", func(m proto.Message) { on(h, m) })
	}()
	return h
}

// run starts a client.
func run(display bool, rate int, args ...string) {
	os.Args = append([]string{"client", "--sample-rate", fmt.Sprint(rate)}, args...)
	if display {
		go infoer.Main()
	} else {
		go player.Main()
	}
}

// settle lets everything proceed that takes no time to speak of.
func settle() {
	time.Sleep(200 * time.Microsecond)
	synctest.Wait()
}

// raw is the client's clock.
func raw() int64 { return int64(vmono.Now()) }

// answer answers requests to synchronise at once and exactly; the server's clock is d ahead.
func answer(h *host, m proto.Message, d int64) bool {
	q, ok := m.(*comm.TimeSyncRequest)
	if ok {
		h.peer.Send(&comm.TimeSyncResponse{ClientSendTime: q.ClientSend, ServerRecvTime: raw() + d, ServerSendTime: raw() + d})
	}
	return ok
}

// difference is how far the server's clock may be ahead of the client's.
func difference(r *rand.Rand) int64 {
	switch r.Intn(5) {
	case 0:
		return 0
	case 1:
		return int64(r.Intn(2e6)) - 1e6
	case 2:
		return r.Int63n(2e13) - 1e13
	case 3:
		return r.Int63n(2e17) - 1e17
	}
	return []int64{1e17, -1e17, 1e15, -1e15, 1, -1}[r.Intn(6)]
}
