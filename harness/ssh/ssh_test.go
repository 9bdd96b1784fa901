package sshh

import (
	"math/rand"
	"testing"

	"github.com/LogicalOverflow/music-sync/verifrt/vh"
)

func TestHarness(t *testing.T) {
	switch vh.Profile {
	case "parse":
		vh.Run(t, func(i int, r *rand.Rand) vh.J { return parse(i, r) })
	case "parallel":
		vh.RunReal(t, func(i int, r *rand.Rand) vh.J { return parallel(i, r) })
	case "terminals":
		vh.Run(t, func(i int, r *rand.Rand) vh.J { return terminals(i, r) })
	case "complete":
		vh.Run(t, func(i int, r *rand.Rand) vh.J { return complete(i, r) })
	}
}
