// Package rules holds the consensus rules that gringo enforces, on reference
// objects.
package rules

import (
	"fmt"
	"math/big"
	"testing"
	"testing/synctest"
	"time"

	"pgregory.net/rapid"

	"verif/harness/data"
	"verif/harness/kit"
	"verif/harness/ref"
)

// PowOK is the rule for the proof of work.
func PowOK(h *ref.Header) bool {
	if len(h.Edges) != ref.Cycle {
		return false
	}
	keys := ref.Keys(h.PrePow())
	var e [][2]uint64
	for i, n := range h.Edges {
		if uint64(n) >= uint64(1)<<h.EdgeBits || i > 0 && n <= h.Edges[i-1] {
			return false
		}
		block := ref.CuckarooEdges(keys, uint64(n)>>6, h.EdgeBits)
		e = append(e, block[n&63])
	}
	return ref.SimpleCycle(e)
}

// VersionOK is the rule for versions.
func VersionOK(height uint64, version uint16) bool {
	for v, until := range map[uint16][2]uint64{1: {0, 95000}, 2: {95000, 250000}, 3: {250000, 500000}} {
		if version == v {
			return until[0] <= height && height < until[1]
		}
	}
	return false
}

// HeaderOK is the header rule at a time (Unix seconds).
func HeaderOK(h *ref.Header, now int64) bool {
	if !VersionOK(h.Height, h.Version) {
		return false
	}
	ahead := new(big.Int).Sub(big.NewInt(h.Time), big.NewInt(now))
	if ahead.Cmp(big.NewInt(720)) > 0 {
		return false
	}
	if h.EdgeBits != 29 && (h.EdgeBits < 30 || h.Scaling != 1) {
		return false
	}
	return PowOK(h)
}

// Pick draws a mined header.
func Pick(c *kit.Case, l []data.Mined, label string) data.Mined {
	return l[rapid.IntRange(0, len(l)-1).Draw(c.T, label)]
}

// At runs f when the clock shows now.
func At(c *kit.Case, t *testing.T, now int64, f func()) { AtNano(c, t, now, 0, f) }

// AtNano is At with parts of a second.
func AtNano(c *kit.Case, t *testing.T, now, nano int64, f func()) {
	var o kit.Outcome
	synctest.Test(t, func(t *testing.T) {
		time.Sleep(time.Until(time.Unix(now, nano)))
		o = kit.Do(f)
	})
	if !o.OK() {
		c.Fatalf("%v", o)
	}
}

// proofs lists the valid pairs of commitment and range proof.
var proofs = func() map[string]bool {
	m := map[string]bool{}
	for _, o := range data.Outputs() {
		if !o.OffCurve {
			m[string(o.Commit[:])+string(o.Proof)] = true
		}
	}
	for _, o := range data.Testnet4Block().Outputs {
		m[string(o.Commit[:])+string(o.Proof)] = true
	}
	return m
}()

// BlockOK is the block rule, for range proofs from the list above.
func BlockOK(b *ref.Block, now int64) (bool, string) {
	if !HeaderOK(&b.Header, now) {
		return false, "header"
	}
	if len(b.Outputs) == 0 || len(b.Kernels) == 0 {
		return false, "empty"
	}
	if !b.Ordered() {
		return false, "order"
	}
	n := 0
	for _, o := range b.Outputs {
		n += int(o.Features & 1)
		if !proofs[string(o.Commit[:])+string(o.Proof)] {
			return false, "range proof"
		}
	}
	if n > 1 {
		return false, "coinbase outputs"
	}
	n = 0
	for _, k := range b.Kernels {
		n += int(k.Features & 1)
		if !k.Valid() {
			return false, "kernel"
		}
	}
	if n > 1 {
		return false, "coinbase kernels"
	}
	return true, ""
}

// Meaningful tells whether a bit of a serialised range proof is used.
func Meaningful(bit int) bool {
	return bit/8 == 64 && bit%8 < 4 || bit/8 == 32+32+129+32+128+1 && bit%8 < 2 || bit/8 != 64 && bit/8 != 32+32+129+32+128+1
}

// Summary describes a block.
func Summary(b *ref.Block) string {
	s := fmt.Sprintf("height %d", b.Header.Height)
	for _, i := range b.Inputs {
		s += fmt.Sprintf(" input %d %x", i.Features, i.Commit[:6])
	}
	for _, o := range b.Outputs {
		s += fmt.Sprintf(" output %d %x", o.Features, o.Commit[:6])
	}
	for _, k := range b.Kernels {
		s += fmt.Sprintf(" kernel %d fee %d lock height %d key %x signature %x", k.Features, k.Fee, k.LockHeight, k.Excess, k.Sig)
	}
	return s
}
