package srv

import (
	"bytes"
	"compress/zlib"
	"math/rand"
	"testing"

	"github.com/LogicalOverflow/music-sync/verifrt/vh"
)

func TestHarness(t *testing.T) {
	if _, ok := fanProfiles[vh.Profile]; ok {
		vh.Run(t, func(i int, r *rand.Rand) vh.J { return fanout(i, r) })
		return
	}
	switch vh.Profile {
	case "announce", "chunks":
		vh.Run(t, func(i int, r *rand.Rand) vh.J { return chunks(i, r) })
	case "volume":
		vh.Run(t, func(i int, r *rand.Rand) vh.J { return volume(i, r) })
	case "join", "history":
		vh.Run(t, func(i int, r *rand.Rand) vh.J { return info(i, r) })
	case "stamps":
		vh.Run(t, func(i int, r *rand.Rand) vh.J { return stamps(i, r) })
	case "edits":
		vh.Run(t, func(i int, r *rand.Rand) vh.J { return edits(i, r) })
	case "songs":
		vh.Run(t, func(i int, r *rand.Rand) vh.J { return catalogue(i, r) })
	case "commands":
		vh.Run(t, func(i int, r *rand.Rand) vh.J { return commands(i, r) })
	case "lyrics":
		vh.Run(t, func(i int, r *rand.Rand) vh.J { return lyrics(i, r) })
	case "wire":
		vh.Run(t, func(i int, r *rand.Rand) vh.J { return wire(i, r) })
	}
}

// bombData inflates to 900 MB.
func bombData() []byte {
	var z bytes.Buffer
	w := zlib.NewWriter(&z)
	b := make([]byte, 1<<20)
	for i := 0; i < 900; i++ {
		w.Write(b)
	}
	w.Close()
	return z.Bytes()
}
