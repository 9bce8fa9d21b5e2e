package chn

import (
	"bytes"
	"fmt"
	"math/big"
	"testing"
	"time"

	"github.com/dblokhin/gringo/chain"
	"github.com/dblokhin/gringo/consensus"
	"pgregory.net/rapid"

	"verif/harness/conv"
	"verif/harness/data"
	"verif/harness/gen"
	"verif/harness/kit"
	"verif/harness/ref"
	"verif/harness/rules"
)

// family is a mined header with its parent.
type family struct {
	name          string
	child, parent ref.Header
}

func families() (out []family) {
	byHash := map[[32]byte]ref.Header{}
	g := conv.BackHeader(&chain.Testnet4.Header)
	byHash[g.Hash()] = g
	l := data.MinedHeaders()
	for _, m := range l {
		byHash[m.Header.Hash()] = m.Header
		if m.Parent != nil {
			byHash[m.Parent.Hash()] = *m.Parent
		}
	}
	for _, m := range l {
		p, ok := byHash[m.Header.Prev]
		if m.Parent != nil {
			// others may have its proof of work, and so its hash
			p = *m.Parent
		}
		if ok && rules.HeaderOK(&m.Header, time.Now().Unix()) {
			out = append(out, family{m.Name, m.Header, p})
		}
	}
	return
}

// TestC18: how a block joins the chain.
func TestC18(t *testing.T) {
	p := kit.New(t, "C18", "a block that is good by itself and whose parent is known",
		"the storage is a model of one; difficulties are below 2^45; the clock of the machine is between 2019 and 2099",
		"what applying a block would do is not implemented in gringo and not checked")
	fam := families()
	var names []string
	for _, f := range fam {
		names = append(names, fmt.Sprintf("%s (height %d)", f.name, f.child.Height))
	}
	p.Extra("children", names)

	process := func(c *kit.Case, ch *chain.Chain, s *store, b *consensus.Block, want bool, why string) {
		before := state(ch)
		var err error
		c.Must("ProcessBlock", func() { err = ch.ProcessBlock(b) })
		if (err == nil) != want {
			c.Fatalf("the rules accept it: %v (%s), but: %v", want, why, err)
		}
		if !want && (state(ch) != before || s.changes != 0) {
			c.Fatalf("a rejected block changed the chain: %s, now %s", before, state(ch))
		}
		// the chain must not stay locked
		c.Must("GetBlockHeaders after ProcessBlock", func() { ch.GetBlockHeaders(consensus.Locator{}) })
	}

	p.Part("linked", kit.Budget{Quick: 500, Thorough: 16000, Shards: 8, Shrink: 20 * time.Second}, func(c *kit.Case) {
		f := fam[rapid.IntRange(0, len(fam)-1).Draw(c.T, "family")]
		h := f.child
		b := ref.Block{Header: h, Body: gen.ValidBody(c.T, 1, 1)}

		// the chain: ancestors, the parent and maybe later blocks
		seed := rapid.Uint64().Draw(c.T, "seed")
		level := rapid.OneOf(rapid.Uint64Range(0, 3), rapid.Uint64Range(1, 1e6), rapid.Uint64Range(0, 1<<45-1)).Draw(c.T, "level")
		step := rapid.OneOf(rapid.Int64Range(30, 120), rapid.Int64Range(0, 300)).Draw(c.T, "step")
		later := rapid.IntRange(0, 3).Draw(c.T, "later")
		s := &store{}
		var samples []ref.Sample // oldest first
		rnd := gen.Expand(seed, 8*100)
		from := h.Height - min(h.Height, 80)
		for x := from; x < h.Height+uint64(later); x++ {
			a := filler(seed, x)
			a.Time = h.Time - int64(h.Height-x)*step
			if x == h.Height-1 {
				a = f.parent
			}
			g := block(a)
			k := 8 * (x - from)
			g.Header.Difficulty = consensus.Difficulty((uint64(rnd[k])<<56 | uint64(rnd[k+1])<<48 | uint64(rnd[k+2])<<40 | uint64(rnd[k+3])<<32) % (level + 1))
			s.blocks = append(s.blocks, g)
			if x < h.Height {
				samples = append(samples, ref.Sample{Time: new(big.Int).Mul(big.NewInt(a.Time), big.NewInt(1e9)), Difficulty: uint64(g.Header.Difficulty)})
			}
		}
		s.last = s.blocks[len(s.blocks)-1]
		parent := s.blocks[len(s.blocks)-1-later]

		want, why := true, ""
		reject := func(format string, args ...any) {
			want = false
			why += fmt.Sprintf(format, args...) + " "
		}
		known := true
		dt := rapid.SampledFrom([]int64{1, 1, 1, 60, 60, 3600, 0, -1, -3600}).Draw(c.T, "after")
		parent.Header.Timestamp = time.Unix(h.Time-dt, 0).UTC()
		samples[len(samples)-1].Time.Mul(big.NewInt(h.Time-dt), big.NewInt(1e9))
		if dt <= 0 {
			reject("%d seconds after its parent", dt)
		}
		td := rapid.SampledFrom([]uint64{0, 0, 0, 0, 0, 1, ^uint64(0), 1 << 32}).Draw(c.T, "total difficulty")
		parent.Header.TotalDifficulty = consensus.Difficulty(h.TD - f.parent.PowDifficulty() + td)
		if td != 0 {
			reject("its parent's total difficulty is %d more", int64(td))
		}
		var window []ref.Sample
		for i := len(samples) - 1; i >= 0 && len(window) < 71; i-- {
			window = append(window, samples[i])
		}
		next := ref.NextDifficulty(window)
		g := conv.Block(b)
		diff := rapid.SampledFrom([]int64{0, 0, 0, 1, 1 << 40, -1, -int64(next)}).Draw(c.T, "difficulty")
		g.Header.Difficulty = consensus.Difficulty(int64(next) + diff)
		if diff < 0 {
			reject("difficulty %d, must be %d", int64(next)+diff, next)
		}
		switch rapid.IntRange(0, 9).Draw(c.T, "parent") {
		case 8: // another block at its height
			other := block(filler(seed, h.Height-1))
			other.Header.Difficulty = parent.Header.Difficulty
			s.blocks[len(s.blocks)-1-later] = other
			known = false
		case 9: // the parent is there, but elsewhere
			parent.Header.Height += uint64(later) + 1
			known = false
		}
		if !known {
			want, why = true, "unknown parent"
		}
		// the block alone
		switch rapid.IntRange(0, 11).Draw(c.T, "fault") {
		case 9:
			g.Kernels[0].Fee++
			reject("kernel")
		case 10:
			g.Outputs = nil
			reject("no outputs")
		case 11:
			g.Header.KernelRoot[0]++
			reject("proof of work")
		default:
			if known {
				c.NonTrivial()
			}
		}
		c.Class("%s full window %v: %v", f.name, len(window) == 71, want)
		c.Note("%s (height %d) on a chain with seed %d, difficulties up to %d, a block every %d seconds, %d later blocks; difficulty %d of %d, known parent %v, good: %v %s",
			f.name, h.Height, seed, level, step, later, g.Header.Difficulty, next, known, want, why)
		ch := chain.New(s.blocks[0], s)
		process(c, ch, s, g, want, why)
	})

	// a block that the chain already has at its tip, or nearly
	p.Part("tip", kit.Budget{Quick: 160, Thorough: 6000, Shards: 8}, func(c *kit.Case) {
		f := fam[rapid.IntRange(0, len(fam)-1).Draw(c.T, "family")]
		b := ref.Block{Header: f.child, Body: gen.ValidBody(c.T, 2, 2)}
		tip := conv.Block(b)
		s := &store{blocks: []*consensus.Block{block(f.parent), tip}, last: tip}
		ch := chain.New(s.blocks[0], s)
		g := conv.Block(b)
		what := rapid.SampledFrom([]string{"the tip", "another kernel fee", "a kernel more", "another header", "another output", "another input", "no outputs",
			"another signature", "another version"}).Draw(c.T, "block")
		want := false
		switch what {
		case "the tip":
			want = true
		case "another kernel fee":
			g.Kernels[rapid.IntRange(0, len(g.Kernels)-1).Draw(c.T, "kernel")].Fee++
		case "a kernel more":
			g.Kernels = append(g.Kernels, g.Kernels[0])
			g.Kernels[len(g.Kernels)-1].Fee++
		case "another header":
			f := rapid.SampledFrom([]*consensus.Hash{&g.Header.KernelRoot, &g.Header.UTXORoot, &g.Header.RangeProofRoot, &g.Header.Previous,
				&g.Header.PreviousRoot, &g.Header.TotalKernelOffset}).Draw(c.T, "field")
			(*f)[rapid.IntRange(0, 31).Draw(c.T, "byte")] ^= 1 << rapid.IntRange(0, 7).Draw(c.T, "bit")
		case "another output":
			g.Outputs[0] = conv.Output(gen.OffCurveOutput(0))
		case "another input":
			if len(g.Inputs) < 2 {
				return
			}
			// out of order
			g.Inputs[0], g.Inputs[1] = g.Inputs[1], g.Inputs[0]
			if bytes.Equal(g.Inputs[0].Bytes(), g.Inputs[1].Bytes()) {
				return
			}
		case "no outputs":
			g.Outputs = nil
		case "another signature":
			g.Kernels[0].ExcessSig[rapid.IntRange(0, 63).Draw(c.T, "byte")] ^= 1
		case "another version":
			g.Header.Version++
		}
		c.Note("tip %s %s, then %s", f.name, rules.Summary(&b), what)
		c.NonTrivial()
		c.Class("%s", what)
		process(c, ch, s, g, want, what)
	})

	// as it comes from a peer
	p.Part("wire", kit.Budget{Quick: 30, Thorough: 300, Shards: 4}, func(c *kit.Case) {
		f := fam[rapid.IntRange(0, len(fam)-1).Draw(c.T, "family")]
		b := ref.Block{Header: f.child, Body: gen.ValidBody(c.T, 1, 1)}
		parent := block(f.parent)
		parent.Header.TotalDifficulty = consensus.Difficulty(f.child.TD - f.parent.PowDifficulty())
		parent.Header.Timestamp = time.Unix(f.child.Time-60, 0)
		s := &store{}
		for x := uint64(0); x+1 < f.child.Height; x++ {
			s.blocks = append(s.blocks, block(filler(1, x)))
		}
		s.blocks = append(s.blocks, parent)
		s.last = parent
		g := new(consensus.Block)
		if err := g.Read(bytes.NewReader(b.Bytes())); err != nil {
			c.Fatalf("the block can't be read: %v", err)
		}
		c.Note("block %s from the wire %x", f.name, b.Bytes())
		c.NonTrivial()
		var err, err2 error
		ch := chain.New(s.blocks[0], s)
		c.Must("ProcessBlock", func() { err = ch.ProcessBlock(g) })
		if err == nil {
			return
		}
		g.Header.Difficulty = 1 << 60
		c.Must("ProcessBlock", func() { err2 = ch.ProcessBlock(g) })
		if err2 != nil {
			c.Fatalf("a good block is rejected: %v, and with a difficulty as well: %v", err, err2)
		}
		c.Known("wire-block-difficulty", fmt.Sprintf("Chain.ProcessBlock rejects good blocks read from the wire when their parent is known (%v): Header.Difficulty isn't on the wire and stays 0", err))
	})
}

// TestC19: validating a chain.
func TestC19(t *testing.T) {
	p := kit.New(t, "C19", "a chain of at least one block above the genesis block", "the storage is a model of one; the clock of the machine is between 2019 and 2099")
	// lines from a mined header down to its first unmined ancestor
	var lines [][]ref.Header // genesis first
	fam := families()
	byHash := map[[32]byte]family{}
	for _, f := range fam {
		byHash[f.child.Hash()] = f
	}
	for _, f := range fam {
		line := []ref.Header{f.child}
		for x, ok := f, true; ok; x, ok = byHash[line[0].Hash()] {
			line = append([]ref.Header{x.parent}, line...)
		}
		lines = append(lines, line)
	}
	longest := 0
	for _, l := range lines {
		longest = max(longest, len(l)-1)
	}
	p.Extra("longest_chain", longest)
	p.Part("chain", kit.Budget{Quick: 300, Thorough: 10000, Shards: 8}, func(c *kit.Case) {
		line := lines[rapid.IntRange(0, len(lines)-1).Draw(c.T, "line")]
		s := &store{}
		genesis := block(line[0])
		inStore := rapid.Bool().Draw(c.T, "genesis stored")
		if inStore {
			s.blocks = append(s.blocks, genesis)
		}
		var good []*consensus.Block
		for _, h := range line[1:] {
			g := conv.Block(ref.Block{Header: h, Body: gen.ValidBody(c.T, 1, 1)})
			good = append(good, g)
		}
		at := rapid.IntRange(0, len(good)-1).Draw(c.T, "at")
		fault := rapid.SampledFrom([]string{"none", "none", "missing", "kernel", "header", "no kernels", "genesis only", "branch", "stand-in", "off curve"}).Draw(c.T, "fault")
		want := false
		s.last = good[len(good)-1]
		switch fault {
		case "none":
			want = true
		case "missing":
			if at == len(good)-1 {
				want = true // the head needs not be stored
			}
			good = append(append([]*consensus.Block{}, good[:at]...), good[at+1:]...)
		case "kernel":
			good[at].Kernels[0].LockHeight ^= 1
		case "header":
			good[at].Header.PreviousRoot[rapid.IntRange(0, 31).Draw(c.T, "byte")] ^= 1
		case "no kernels":
			good[at].Kernels = nil
		case "off curve":
			good[at].Outputs = conv.Outputs([]ref.Output{gen.OffCurveOutput(0)})
		case "genesis only":
			s.last, want = nil, true
		case "branch":
			// the blocks belong to another genesis block
			genesis = block(filler(5, 0))
		case "stand-in":
			// likewise, and it is where one of the blocks, or their genesis
			// block, should be
			h := line[rapid.IntRange(0, len(line)-2).Draw(c.T, "place")].Height
			genesis = block(filler(5, h))
			keep := []*consensus.Block{genesis}
			for _, b := range append(s.blocks, good...) {
				if b.Header.Height > h {
					keep = append(keep, b)
				}
			}
			s.blocks, good = nil, keep
		}
		s.blocks = append(s.blocks, good...)
		c.Note("chain of %d blocks above the genesis block (stored: %v), fault: %s at %d", len(line)-1, inStore, fault, at)
		for _, g := range good {
			c.Note("block at height %d with input list %d, output %x, kernel %x", g.Header.Height, len(g.Inputs), conv.BackBody(nil, g.Outputs[:min(1, len(g.Outputs))], nil), g.Kernels[:min(1, len(g.Kernels))])
		}
		c.NonTrivial()
		c.Class("%s %v", fault, want)
		ch := chain.New(genesis, s)
		if fault == "genesis only" && s.last != nil {
			c.Fatalf("bad case")
		}
		before := state(ch)
		for i := 0; i < 2; i++ {
			var err error
			c.Must("Validate", func() { err = ch.Validate() })
			if (err == nil) != want {
				c.Fatalf("the chain is good: %v, but: %v", want, err)
			}
		}
		if state(ch) != before || s.changes != 0 {
			c.Fatalf("validating changed the chain")
		}
		c.Must("GetBlockHeaders after Validate", func() { ch.GetBlockHeaders(consensus.Locator{}) })
	})
}
