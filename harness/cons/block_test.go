package cons

import (
	"bytes"
	"fmt"
	"math/big"
	"slices"
	"testing"
	"time"

	"github.com/dblokhin/gringo/consensus"
	"pgregory.net/rapid"

	"verif/harness/conv"
	"verif/harness/data"
	"verif/harness/gen"
	"verif/harness/kit"
	"verif/harness/ref"
	"verif/harness/rules"
)

func blockState(b *consensus.Block) string {
	return fmt.Sprintf("%+v %+v", conv.BackHeader(&b.Header), conv.BackBody(b.Inputs, b.Outputs, b.Kernels))
}

var blockFaults = []string{"none", "input order", "output order", "kernel order", "no outputs", "no kernels", "coinbase outputs",
	"coinbase kernels", "proofs swapped", "another proof", "proof bit", "commitment sign", "another commitment", "copied proof", "copied signature", "off curve",
	"kernel fee", "kernel lock height", "kernel signature", "kernel key", "header", "all coinbase flags", "empty", "repeated output", "repeated kernel"}

// TestC12: block rules.
func TestC12(t *testing.T) {
	p := kit.New(t, "C12", "a block with a good proof of work and a body with at most one fault",
		"range proofs of the list of known good outputs are the only valid ones that occur; the block rules are those that gringo enforces: no kernel sums, weight or roots")
	const now = 4e9
	var heads []ref.Header
	for _, m := range data.MinedHeaders() {
		if rules.HeaderOK(&m.Header, now) {
			heads = append(heads, m.Header)
		}
	}
	heads = append(heads, data.Testnet4Block().Header)

	p.Part("block", kit.Budget{Quick: 420, Thorough: 16000, Shards: 8, Shrink: 30 * time.Second}, func(c *kit.Case) {
		b := ref.Block{Header: heads[rapid.IntRange(0, len(heads)-1).Draw(c.T, "header")]}
		maxOut, maxKer := rapid.IntRange(1, 4), rapid.IntRange(1, 5)
		if rapid.IntRange(0, 19).Draw(c.T, "large") == 19 {
			maxOut, maxKer = rapid.IntRange(5, 24), rapid.IntRange(6, 60)
		}
		b.Body = gen.ValidBody(c.T, maxOut.Draw(c.T, "maxOut"), maxKer.Draw(c.T, "maxKer"))
		if rapid.IntRange(0, 3).Draw(c.T, "alike") == 0 {
			x := ref.Body{}
			gen.Alike(c.T, &x)
			b.Inputs = append(b.Inputs, x.Inputs...)
		}
		// flags without a meaning
		flags := rapid.SampledFrom([]uint8{0, 0, 2, 4, 2 | 8, 128, 0xfe}).Draw(c.T, "flags")
		for i := range b.Outputs {
			if rapid.IntRange(0, 2).Draw(c.T, "flag output") == 0 {
				b.Outputs[i].Features |= flags
			}
		}
		for i := range b.Kernels {
			if rapid.IntRange(0, 2).Draw(c.T, "flag kernel") == 0 {
				b.Kernels[i].Features |= flags
			}
		}
		b.Sort()
		fault := rapid.SampledFrom(blockFaults).Draw(c.T, "fault")
		o, k := rapid.IntRange(0, len(b.Outputs)-1).Draw(c.T, "o"), rapid.IntRange(0, len(b.Kernels)-1).Draw(c.T, "k")
		bit := rapid.IntRange(0, gen.ProofSize*8-1).Draw(c.T, "bit")
		coinbase := rapid.SampledFrom([]uint8{1, 1, 3, 255}).Draw(c.T, "coinbase")
		// the block without its fault, validated before: nothing of it may count
		var good *consensus.Block
		if rapid.IntRange(0, 2).Draw(c.T, "history") == 0 {
			x := b
			x.Body = ref.Body{Inputs: slices.Clone(b.Inputs), Outputs: slices.Clone(b.Outputs), Kernels: slices.Clone(b.Kernels)}
			x.Sort()
			good = conv.Block(x)
			var err error
			rules.At(c, t, now, func() { err = good.Validate() })
			if want, why := rules.BlockOK(&x, now); (err == nil) != want {
				c.Fatalf("the rules accept the block without the fault: %v %s, but validating: %v", want, why, err)
			}
		}
		swap := func(n int, f func(i, j int)) {
			if n > 1 {
				i := rapid.IntRange(0, n-2).Draw(c.T, "at")
				f(i, i+1)
			}
		}
		switch fault {
		case "no outputs":
			b.Outputs = nil
		case "no kernels":
			b.Kernels = nil
		case "empty":
			b.Body = ref.Body{}
		case "repeated output":
			// as it is, or with a worse proof
			x := b.Outputs[o]
			x.Features &^= 1
			b.Outputs[o].Features &^= 1
			if rapid.IntRange(0, 3).Draw(c.T, "same") > 0 && rules.Meaningful(bit) {
				x.Proof = append([]byte{}, x.Proof...)
				x.Proof[bit/8] ^= 1 << (bit % 8)
			}
			b.Outputs = append(b.Outputs, x)
			if rapid.Bool().Draw(c.T, "first") {
				b.Outputs[o], b.Outputs[len(b.Outputs)-1] = x, b.Outputs[o]
			}
		case "repeated kernel":
			x := b.Kernels[k]
			x.Features &^= 1
			b.Kernels[k].Features &^= 1
			switch rapid.IntRange(0, 3).Draw(c.T, "change") {
			case 0:
				x.Fee ^= 1 << (bit % 64)
			case 1:
				x.Sig[bit/8%64] ^= 1 << (bit % 8)
			case 2:
				x.Excess[0] ^= 1
			}
			b.Kernels = append(b.Kernels, x)
		case "coinbase outputs":
			b.Outputs[o].Features = coinbase
			for i := range b.Outputs {
				if i != o && b.Outputs[i].Features&1 == 0 {
					b.Outputs[i].Features = coinbase
					break
				}
			}
		case "coinbase kernels":
			b.Kernels[k].Features = coinbase
			for i := range b.Kernels {
				if i != k && b.Kernels[i].Features&1 == 0 {
					b.Kernels[i].Features = coinbase
					break
				}
			}
		case "all coinbase flags":
			// other flags are no coinbase flags
			for i := range b.Outputs {
				b.Outputs[i].Features = 0xfe
			}
			for i := range b.Kernels {
				b.Kernels[i].Features = 0xfe
			}
		case "proofs swapped":
			i := rapid.IntRange(0, len(b.Outputs)-1).Draw(c.T, "second")
			b.Outputs[i].Proof, b.Outputs[o].Proof = b.Outputs[o].Proof, b.Outputs[i].Proof
		case "copied proof": // of an output that is good with it
			if len(b.Outputs) == 1 {
				b.Outputs = append(b.Outputs, gen.ValidOutput(c.T, 0))
			}
			i := rapid.IntRange(0, len(b.Outputs)-2).Draw(c.T, "second")
			if i >= o {
				i++
			}
			b.Outputs[i].Proof = b.Outputs[o].Proof
		case "copied signature":
			i := rapid.IntRange(0, len(b.Kernels)-1).Draw(c.T, "second")
			b.Kernels[i].Sig = b.Kernels[k].Sig
			if rapid.Bool().Draw(c.T, "and key") {
				b.Kernels[i].Excess = b.Kernels[k].Excess
			}
		case "another proof":
			b.Outputs[o].Proof = gen.ValidOutput(c.T, 0).Proof
		case "proof bit":
			if rules.Meaningful(bit) {
				x := append([]byte{}, b.Outputs[o].Proof...)
				x[bit/8] ^= 1 << (bit % 8)
				b.Outputs[o].Proof = x
			}
		case "commitment sign":
			b.Outputs[o].Commit[0] ^= 1
		case "another commitment":
			b.Outputs[o].Commit = gen.ValidOutput(c.T, 0).Commit
		case "off curve":
			b.Outputs[o] = gen.OffCurveOutput(b.Outputs[o].Features)
		case "kernel fee":
			b.Kernels[k].Fee ^= 1 << (bit % 64)
		case "kernel lock height":
			b.Kernels[k].LockHeight ^= 1 << (bit % 64)
		case "kernel signature":
			b.Kernels[k].Sig[bit/8%64] ^= 1 << (bit % 8)
		case "kernel key":
			b.Kernels[k].Excess[0] ^= 1
		case "header":
			h := &b.Header
			h.Edges = append([]uint32{}, h.Edges...)
			switch bit % 4 {
			case 0:
				h.Nonce++
			case 1:
				h.KernelRoot[bit/8%32] ^= 1
			case 2:
				h.Edges[bit/8%42]++
			case 3:
				h.Version++
			}
		}
		b.Sort()
		switch fault {
		case "input order":
			swap(len(b.Inputs), func(i, j int) { b.Inputs[i], b.Inputs[j] = b.Inputs[j], b.Inputs[i] })
		case "output order":
			swap(len(b.Outputs), func(i, j int) { b.Outputs[i], b.Outputs[j] = b.Outputs[j], b.Outputs[i] })
		case "kernel order":
			swap(len(b.Kernels), func(i, j int) { b.Kernels[i], b.Kernels[j] = b.Kernels[j], b.Kernels[i] })
		}
		want, why := rules.BlockOK(&b, now)
		c.Class("fault %s: %s%v", fault, why, want)
		c.Note("block with fault %s (at output %d, kernel %d, bit %d): %s", fault, o, k, bit, rules.Summary(&b))
		c.NonTrivial([]byte(fmt.Sprint(o, k, bit, fault)), b.BytesAsGiven())

		g := conv.Block(b)
		if rapid.Bool().Draw(c.T, "sent") {
			g = new(consensus.Block)
			if err := g.Read(bytes.NewReader(b.BytesAsGiven())); err != nil {
				c.Fatalf("the block can't be read: %v", err)
			}
		}
		if good != nil {
			c.Class("validated before without the fault")
			if rapid.Bool().Draw(c.T, "same object") {
				conv.Over(good, g)
				g = good
			}
		}
		before := blockState(g)
		var err error
		rules.At(c, t, now, func() { err = g.Validate() })
		if (err == nil) != want {
			c.Fatalf("the rules accept it: %v %s, but validating: %v", want, why, err)
		}
		if blockState(g) != before {
			c.Fatalf("validating changed the block")
		}
	})
	// one bad thing among many good ones
	p.Part("crowd", kit.Budget{Quick: 96, Thorough: 4000, Shards: 8, Shrink: 20 * time.Second}, func(c *kit.Case) {
		b := ref.Block{Header: heads[rapid.IntRange(0, len(heads)-1).Draw(c.T, "header")]}
		outputs, kernels := 1, 1
		many := rapid.SampledFrom([]string{"outputs", "kernels", "kernels"}).Draw(c.T, "many")
		if many == "outputs" {
			outputs = rapid.IntRange(2, 28).Draw(c.T, "outputs")
		} else {
			kernels = rapid.IntRange(2, 150).Draw(c.T, "kernels")
		}
		seen := map[ref.Point]bool{}
		for i := 0; i < outputs; i++ {
			if o := gen.ValidOutput(c.T, 0); !seen[o.Commit] {
				seen[o.Commit] = true
				b.Outputs = append(b.Outputs, o)
			}
		}
		start := rapid.Uint64().Draw(c.T, "keys")
		plain := rapid.Bool().Draw(c.T, "no fees")
		for i := 0; i < kernels; i++ {
			e := gen.Expand(start+uint64(i), 80)
			var key, nonce [32]byte
			copy(key[1:], e)
			copy(nonce[1:], e[32:])
			fee, lock := uint64(e[64]), uint64(e[65])
			if plain {
				fee, lock = 0, 0
			}
			b.Kernels = append(b.Kernels, ref.NewKernel(0, fee, lock, new(big.Int).SetBytes(key[:]), new(big.Int).SetBytes(nonce[:])))
		}
		b.Sort()
		coinbases := rapid.IntRange(0, 2).Draw(c.T, "coinbases")
		if coinbases == 1 {
			b.Outputs[rapid.IntRange(0, len(b.Outputs)-1).Draw(c.T, "coinbase output")].Features = 1
			b.Kernels[rapid.IntRange(0, len(b.Kernels)-1).Draw(c.T, "coinbase kernel")].Features = 1
		}
		where := func(n int) int {
			return rapid.OneOf(rapid.IntRange(0, n-1), rapid.Just(n-1)).Draw(c.T, "where")
		}
		fault := rapid.SampledFrom([]string{"none", "value", "value", "value", "order", "second coinbase"}).Draw(c.T, "fault")
		at := 0
		switch {
		case many == "outputs" && fault == "value":
			at = where(len(b.Outputs))
			if coinbases == 2 {
				b.Outputs[at].Features = 1
			}
			bit := rapid.IntRange(0, gen.ProofSize*8-1).Draw(c.T, "bit")
			if from := where(len(b.Outputs)); from != at && rapid.Bool().Draw(c.T, "copied") {
				b.Outputs[at].Proof = b.Outputs[from].Proof
			} else if rules.Meaningful(bit) {
				b.Outputs[at].Proof = append([]byte{}, b.Outputs[at].Proof...)
				b.Outputs[at].Proof[bit/8] ^= 1 << (bit % 8)
			}
		case fault == "value":
			// which changes its place too, so that all are sorted again
			at = where(len(b.Kernels))
			if coinbases == 2 {
				b.Kernels[at].Features = 1
			}
			bit := rapid.IntRange(0, 511).Draw(c.T, "bit")
			switch rapid.IntRange(0, 3).Draw(c.T, "field") {
			case 0:
				b.Kernels[at].Sig[bit/8] ^= 1 << (bit % 8)
			case 1:
				b.Kernels[at].Excess[0] ^= 1
			case 2:
				b.Kernels[at].LockHeight ^= 1 << (bit % 64)
			case 3:
				b.Kernels[at].Fee ^= 1 << (bit % 64)
			}
		}
		b.Sort()
		switch {
		case many == "outputs" && fault == "second coinbase":
			b.Outputs[0].Features, b.Outputs[where(len(b.Outputs))].Features = 1, 1
		case fault == "second coinbase":
			b.Kernels[0].Features, b.Kernels[where(len(b.Kernels))].Features = 1, 1
		case many == "outputs" && fault == "order" && len(b.Outputs) > 1:
			at = rapid.OneOf(rapid.IntRange(0, len(b.Outputs)-2), rapid.Just(len(b.Outputs)-2)).Draw(c.T, "at")
			b.Outputs[at], b.Outputs[at+1] = b.Outputs[at+1], b.Outputs[at]
		case many == "kernels" && fault == "order":
			at = rapid.OneOf(rapid.IntRange(0, len(b.Kernels)-2), rapid.Just(len(b.Kernels)-2)).Draw(c.T, "at")
			b.Kernels[at], b.Kernels[at+1] = b.Kernels[at+1], b.Kernels[at]
		}
		want, why := rules.BlockOK(&b, now)
		c.Class("%s, fault %s: %s%v", many, fault, why, want)
		c.Note("block with %d outputs and %d kernels, fault %s at one of the %s: %d: %s", len(b.Outputs), len(b.Kernels), fault, many, at, rules.Summary(&b))
		c.NonTrivial(b.BytesAsGiven())
		g := new(consensus.Block)
		if err := g.Read(bytes.NewReader(b.BytesAsGiven())); err != nil {
			c.Fatalf("the block can't be read: %v", err)
		}
		var err error
		rules.At(c, t, now, func() { err = g.Validate() })
		if (err == nil) != want {
			c.Fatalf("the rules accept it: %v %s, but validating: %v", want, why, err)
		}
	})
	p.Part("testnet", kit.Budget{Quick: 60, Thorough: 1500, Shards: 8}, func(c *kit.Case) {
		b := data.Testnet4Block()
		var what string
		switch rapid.IntRange(0, 4).Draw(c.T, "change") {
		case 0:
			what = "as it is"
		case 1:
			i := rapid.IntRange(0, len(b.Outputs)-1).Draw(c.T, "output")
			bit := rapid.IntRange(0, gen.ProofSize*8-1).Draw(c.T, "bit")
			if rules.Meaningful(bit) {
				b.Outputs[i].Proof[bit/8] ^= 1 << (bit % 8)
			}
			what = fmt.Sprintf("proof %d bit %d changed", i, bit)
		case 2:
			i := rapid.IntRange(0, len(b.Kernels)-1).Draw(c.T, "kernel")
			b.Kernels[i].Fee++
			what = fmt.Sprintf("kernel %d fee changed", i)
			b.Sort()
		case 3:
			if len(b.Outputs) > 1 {
				b.Outputs[0], b.Outputs[1] = b.Outputs[1], b.Outputs[0]
			}
			what = "outputs out of order"
		case 4:
			b.Header.TD++
			what = "total difficulty changed"
		}
		c.Note("testnet 4 block 65927, %s", what)
		c.NonTrivial()
		want, why := rules.BlockOK(&b, now)
		g := new(consensus.Block)
		if err := g.Read(bytes.NewReader(b.BytesAsGiven())); err != nil {
			c.Fatalf("the block can't be read: %v", err)
		}
		var err error
		rules.At(c, t, now, func() { err = g.Validate() })
		if (err == nil) != want {
			c.Fatalf("the rules accept it: %v %s, but validating: %v", want, why, err)
		}
	})
}

// TestC15: the difficulty of the next block.
func TestC15(t *testing.T) {
	p := kit.New(t, "C15", "a list of at least 71 blocks (a full window)",
		"block times lie within 290 years of each other and difficulties are at most 2^52, so that nothing overflows")
	p.Part("list", kit.Budget{Quick: 12000, Thorough: 600000, Shards: 8}, func(c *kit.Case) {
		n := rapid.OneOf(rapid.IntRange(69, 74), rapid.IntRange(0, 74), rapid.IntRange(71, 140)).Draw(c.T, "blocks")
		start := rapid.Int64Range(1e9, 4e9).Draw(c.T, "start")
		step := rapid.OneOf(rapid.Int64Range(0, 140), rapid.Int64Range(20, 140), rapid.Int64Range(-100, 5000)).Draw(c.T, "step")
		jitter := rapid.OneOf(rapid.Just(int64(0)), rapid.Int64Range(1, 10), rapid.Int64Range(1, 7200)).Draw(c.T, "jitter")
		level := rapid.OneOf(rapid.Uint64Range(0, 3), rapid.Uint64Range(0, 1<<45-1), rapid.Uint64Range(0, 1<<52), rapid.Just(uint64(1<<52)), rapid.Uint64Range(0, 1e6)).Draw(c.T, "level")
		seed := rapid.Uint64().Draw(c.T, "seed")
		nanos := rapid.IntRange(0, 3).Draw(c.T, "nanos") == 3
		rnd := gen.Expand(seed, 16*n)
		c.Note("%d blocks from %d every %d seconds +-%d, difficulties up to %d, seed %d, nanoseconds %v", n, start, step, jitter, level, seed, nanos)
		if n >= 71 {
			c.NonTrivial()
		}
		c.Class("full window: %v", n >= 71)
		var list consensus.BlockList
		var samples []ref.Sample
		now := start
		for i := 0; i < n; i++ {
			x := rnd[16*i : 16*i+16]
			u := func(b []byte) uint64 {
				return uint64(b[0])<<56 | uint64(b[1])<<48 | uint64(b[2])<<40 | uint64(b[3])<<32 | uint64(b[4])<<24 | uint64(b[5])<<16 | uint64(b[6])<<8 | uint64(b[7])
			}
			when := now
			if jitter > 0 {
				when += int64(u(x)%uint64(2*jitter+1)) - jitter
			}
			ns := int64(0)
			if nanos {
				ns = int64(u(x[8:]) % 1e9)
			}
			d := u(x[8:]) % (level + 1)
			list = append(list, consensus.Block{Header: consensus.BlockHeader{Timestamp: time.Unix(when, ns).UTC(), Difficulty: consensus.Difficulty(d),
				TotalDifficulty: consensus.Difficulty(u(x))}})
			tm := new(big.Int).Mul(big.NewInt(when), big.NewInt(1e9))
			samples = append(samples, ref.Sample{Time: tm.Add(tm, big.NewInt(ns)), Difficulty: d})
			now -= step // latest first
		}
		before := fmt.Sprintf("%v", list)
		var got consensus.Difficulty
		c.Must("NextDifficulty", func() { got = consensus.NextDifficulty(list) })
		if want := ref.NextDifficulty(samples); uint64(got) != want {
			c.Fatalf("difficulty %d, want %d", got, want)
		}
		if fmt.Sprintf("%v", list) != before {
			c.Fatalf("the list was changed")
		}
		if n >= 71 {
			// older blocks don't count, and the difficulty moves by at most a factor of two
			if x := consensus.NextDifficulty(list[:71]); x != got {
				c.Fatalf("difficulty %d with the window alone, %d with older blocks", x, got)
			}
			sum := uint64(0)
			for _, b := range list[:60] {
				sum += uint64(b.Header.Difficulty)
			}
			if avg := sum / 60; uint64(got) > max(1, 2*avg) || uint64(got) < max(1, avg/2) {
				c.Fatalf("difficulty %d after an average of %d", got, avg)
			}
		}
	})
}
