// The commands as they are, started with their flags.
package sysh

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	server "github.com/LogicalOverflow/music-sync/verifmain/server"
	"github.com/LogicalOverflow/music-sync/verifrt"
	"github.com/LogicalOverflow/music-sync/verifrt/vh"
	"github.com/LogicalOverflow/music-sync/verifrt/vnet"
	"github.com/urfave/cli"
)

func TestHarness(t *testing.T) {
	vh.Run(t, func(i int, r *rand.Rand) vh.J {
		switch vh.Profile {
		case "login":
			return login(i, r)
		case "life":
			return lifeOf(i, r)
		case "logging":
			return logging(i, r)
		}
		panic("no such profile")
	})
}

type log struct {
	mu sync.Mutex
	ev []vh.J
}

func (l *log) add(j vh.J) { l.mu.Lock(); l.ev = append(l.ev, j); l.mu.Unlock() }
func (l *log) all() []vh.J {
	l.mu.Lock()
	defer l.mu.Unlock()
	return append([]vh.J{}, l.ev...)
}

// scratch makes a directory for a scenario.
func scratch(n int) string {
	d := filepath.Join(os.Getenv("VH_DIR"), fmt.Sprintf("sys%d", n))
	os.MkdirAll(d, 0o755)
	return d
}

// begin prepares for commands; it returns how they ended.
func begin() *[]int {
	vnet.Reset()
	ended := &[]int{}
	verifrt.OnExit = func(code int) { *ended = append(*ended, code) }
	cli.OsExiter = verifrt.Exit
	cli.ErrWriter = nowhere{}
	return ended
}

type nowhere struct{}

func (nowhere) Write(b []byte) (int, error) { return len(b), nil }

func startServer(args ...string) {
	os.Args = append([]string{"server"}, args...)
	go server.Main()
	settle()
}

// settle lets everything proceed that takes no time to speak of.
func settle() {
	time.Sleep(200 * time.Microsecond)
	synctest.Wait()
}
