package cons

import (
	"bytes"
	"fmt"
	"math/big"
	"slices"
	"sort"
	"testing"

	"github.com/dblokhin/gringo/consensus"
	"golang.org/x/crypto/blake2b"
	"pgregory.net/rapid"

	"verif/harness/conv"
	"verif/harness/data"
	"verif/harness/gen"
	"verif/harness/kit"
	"verif/harness/ref"
	"verif/harness/rules"
)

// shuffle permutes a list by drawn swaps.
func shuffle[T any](t *rapid.T, l []T) []T {
	l = append([]T{}, l...)
	for i := len(l) - 1; i > 0; i-- {
		j := rapid.IntRange(0, i).Draw(t, "swap")
		l[i], l[j] = l[j], l[i]
	}
	return l
}

// TestC06: order on the wire.
func TestC06(t *testing.T) {
	p := kit.New(t, "C06", "a list of at least two items")

	p.Part("transaction", kit.Budget{Quick: 6000, Thorough: 200000, Shards: 8}, func(c *kit.Case) {
		x := ref.Tx{Body: gen.Body(c.T, rapid.SampledFrom([]int{3, 16}).Draw(c.T, "size"))}
		dups(c.T, &x.Body)
		y := x
		y.Inputs, y.Outputs, y.Kernels = shuffle(c.T, x.Inputs), shuffle(c.T, x.Outputs), shuffle(c.T, x.Kernels)
		if rapid.Bool().Draw(c.T, "nearly") {
			// sorted but for one pair
			y.Sort()
			swap := func(n int, f func(i, j int)) {
				if n > 1 {
					i := rapid.IntRange(0, n-2).Draw(c.T, "pair")
					f(i, i+1)
				}
			}
			switch rapid.IntRange(0, 3).Draw(c.T, "list") {
			case 0:
				swap(len(y.Inputs), func(i, j int) { y.Inputs[i], y.Inputs[j] = y.Inputs[j], y.Inputs[i] })
			case 1:
				swap(len(y.Outputs), func(i, j int) { y.Outputs[i], y.Outputs[j] = y.Outputs[j], y.Outputs[i] })
			case 2:
				swap(len(y.Kernels), func(i, j int) { y.Kernels[i], y.Kernels[j] = y.Kernels[j], y.Kernels[i] })
			}
		}
		c.Note("transaction %+v\nsent as %+v", x, y)
		if max(len(y.Inputs), len(y.Outputs), len(y.Kernels)) > 1 {
			c.NonTrivial()
		}
		ordered := y.Ordered()
		c.Class("ordered: %v", ordered)
		var z consensus.Transaction
		var err error
		c.Must("decoding", func() { err = z.Read(bytes.NewReader(y.BytesAsGiven())) })
		if (err == nil) != ordered {
			c.Fatalf("lists in order: %v, but decoding it: %v", ordered, err)
		}
		// the order in memory doesn't matter for the encoding
		sameBytes(c, "shuffled transaction", conv.Tx(y), x.Bytes())
		h := gen.Header(c.T)
		sameBytes(c, "shuffled block", conv.Block(ref.Block{Header: h, Body: y.Body}), (&ref.Block{Header: h, Body: x.Body}).Bytes())
		cb := ref.Compact{Header: h, Body: y.Body, IDs: [][6]byte{{3}, {1}, {2, 9}, {2, 1}}}
		cb.Inputs = nil
		sameBytes(c, "shuffled compact block", conv.Compact(cb), cb.Bytes())
	})

	// The lists as sort.Interface
	p.Part("lists", kit.Budget{Quick: 1500, Thorough: 50000, Shards: 8}, func(c *kit.Case) {
		b := gen.Body(c.T, 20)
		dups(c.T, &b)
		c.Note("%+v", b)
		if max(len(b.Inputs), len(b.Outputs), len(b.Kernels)) > 1 {
			c.NonTrivial()
		}
		in, out, ker := conv.Inputs(b.Inputs), conv.Outputs(b.Outputs), conv.Kernels(b.Kernels)
		check := func(name string, l sort.Interface, h func(i int) []byte) {
			for i := 0; i < l.Len(); i++ {
				for j := 0; j < l.Len(); j++ {
					if less := bytes.Compare(h(i), h(j)) < 0; l.Less(i, j) != less {
						c.Fatalf("%s: Less(%d, %d) is %v, hashes %x and %x", name, i, j, !less, h(i), h(j))
					}
				}
			}
			sort.Sort(l)
			if !sort.IsSorted(l) {
				c.Fatalf("%s aren't sorted after sorting", name)
			}
		}
		sum := func(b []byte) []byte { x := blake2b.Sum256(b); return x[:] }
		check("inputs", in, func(i int) []byte { return sum(b.Inputs[i].Bytes()) })
		check("outputs", out, func(i int) []byte { return sum(b.Outputs[i].Bytes()[:34]) })
		check("kernels", ker, func(i int) []byte { return sum(b.Kernels[i].Bytes()) })
		sameBody(c, in, out, ker, sorted(b))
		var ids consensus.ShortIDList
		var raw [][]byte
		for n := rapid.IntRange(0, 8).Draw(c.T, "ids"); n > 0; n-- {
			id := rapid.SliceOfN(rapid.ByteRange(0, 2), 6, 6).Draw(c.T, "id")
			ids, raw = append(ids, id), append(raw, id)
		}
		check("short ids", ids, func(i int) []byte { return raw[i] })
	})
}

// TestC07: short ids.
func TestC07(t *testing.T) {
	p := kit.New(t, "C07", "every case: hashes of at least 16 random bytes")
	p.Part("ids", kit.Budget{Quick: 60000, Thorough: 3000000, Shards: 4}, func(c *kit.Case) {
		h := gen.Bytes(c.T, "hash", rapid.SampledFrom([]int{32, 32, 32, 33, 20, 64}).Draw(c.T, "size"))
		b := gen.Bytes(c.T, "block", 32)
		if rapid.Bool().Draw(c.T, "tweak") {
			b[rapid.IntRange(0, 31).Draw(c.T, "at")] ^= 0x80
		}
		c.Note("hash %x block %x", h, b)
		c.NonTrivial()
		h0, b0 := append([]byte{}, h...), append([]byte{}, b...)
		var id consensus.ShortID
		c.Must("ShortID", func() { id = consensus.Hash(h).ShortID(b) })
		le := func(b []byte) (v uint64) {
			for i := 7; i >= 0; i-- {
				v = v<<8 | uint64(b[i])
			}
			return
		}
		sip := ref.SipHash24(le(b), le(b[8:]), h)
		var want []byte
		for i := 0; i < 6; i++ {
			want = append(want, byte(sip>>(8*i)))
		}
		if !bytes.Equal(id, want) {
			c.Fatalf("short id %x, want %x", []byte(id), want)
		}
		if id.String() != fmt.Sprintf("%x", want) {
			c.Fatalf("printed as %s", id)
		}
		if !bytes.Equal(h, h0) || !bytes.Equal(b, b0) {
			c.Fatalf("the hashes were changed")
		}
	})
}

// TestC09: hashes.
func TestC09(t *testing.T) {
	p := kit.New(t, "C09", "a header whose edge nonces differ, or items with random contents")
	eq := func(c *kit.Case, what string, f func() []byte, want []byte) {
		var got []byte
		c.Must("hashing "+what, func() { got = f() })
		if !bytes.Equal(got, want) {
			c.Fatalf("hash of %s is %x, want %x", what, got, want)
		}
	}
	sum := func(b []byte) []byte { x := blake2b.Sum256(b); return x[:] }
	p.Part("blocks", kit.Budget{Quick: 8000, Thorough: 300000, Shards: 8}, func(c *kit.Case) {
		h := gen.Header(c.T)
		b := gen.Body(c.T, 3)
		c.Note("header %+v", h)
		if h.Edges[0] != h.Edges[1] {
			c.NonTrivial()
		}
		hash := h.Hash()
		gh := conv.Header(h)
		eq(c, "header", func() []byte { return gh.Hash() }, hash[:])
		eq(c, "block", func() []byte { return conv.Block(ref.Block{Header: h, Body: b}).Hash() }, hash[:])
		eq(c, "compact block", func() []byte { return conv.Compact(ref.Compact{Header: h}).Hash() }, hash[:])
		eq(c, "proof", gh.POW.Hash, sum(h.Pow()))
		// the decoded header is the same block
		var d consensus.BlockHeader
		decodeAll(c, "header", &d, h.Bytes())
		eq(c, "decoded header", func() []byte { return d.Hash() }, hash[:])
		// nothing but the proof of work counts
		o := gen.Header(c.T)
		o.EdgeBits, o.Edges = h.EdgeBits, h.Edges
		go2 := conv.Header(o)
		eq(c, "another header with that proof", func() []byte { return go2.Hash() }, hash[:])
		// and all of it counts
		i := rapid.IntRange(0, 41).Draw(c.T, "edge")
		bit := rapid.IntRange(0, int(h.EdgeBits)-1).Draw(c.T, "bit")
		gh.POW.Nonces[i] ^= 1 << bit
		var got []byte
		c.Must("hashing", func() { got = gh.Hash() })
		if bytes.Equal(got, hash[:]) {
			c.Fatalf("bit %d of edge %d isn't in the hash", bit, i)
		}
	})
	p.Part("items", kit.Budget{Quick: 4000, Thorough: 150000, Shards: 8}, func(c *kit.Case) {
		i, o, k := gen.Input(c.T), gen.Output(c.T), gen.Kernel(c.T)
		c.Note("input %+v\noutput %+v\nkernel %+v", i, o, k)
		c.NonTrivial()
		x, y, z := conv.Input(i), conv.Output(o), conv.Kernel(k)
		eq(c, "input", x.Hash, sum(i.Bytes()))
		eq(c, "output", y.Hash, sum(o.Bytes()[:34]))
		eq(c, "kernel", z.Hash, sum(k.Bytes()))
		o.Proof = gen.RangeProof(c.T)
		y = conv.Output(o)
		eq(c, "output with another proof", y.Hash, sum(o.Bytes()[:34]))
	})
}

// TestC10: the proof of work binds the whole header.
func TestC10(t *testing.T) {
	p := kit.New(t, "C10", "a mined header with one change", "the hash functions have no collisions within the budget")
	var good []data.Mined
	for _, m := range data.MinedHeaders() {
		if rules.PowOK(&m.Header) {
			good = append(good, m)
		}
	}
	if len(good) < 3 {
		t.Fatal("no mined headers")
	}
	// verify validates h: a new object, or one that held the good header g
	// (of which no trace may be left).
	verify := func(c *kit.Case, good, h ref.Header, want bool) {
		g := conv.Header(h)
		switch rapid.IntRange(0, 3).Draw(c.T, "object") {
		case 0:
			x := conv.Header(good)
			var err error
			c.Must("validating", func() { err = x.POW.Validate(&x, x.POW.EdgeBits); x.Validate() })
			if err != nil {
				c.Fatalf("the good header's proof of work is rejected: %v", err)
			}
			conv.Over(&x, &g)
			g = x
		case 1:
			sent, err := ref.Header{}, error(nil)
			if len(h.Edges) == 42 {
				sent, err = ref.ParseHeader(&ref.Reader{B: h.Bytes()})
			}
			if err != nil || !slices.Equal(sent.Edges, h.Edges) {
				break // can't be sent
			}
			x := conv.Header(good)
			c.Must("validating and decoding", func() {
				x.POW.Validate(&x, x.POW.EdgeBits)
				x.Validate()
				err = x.Read(bytes.NewReader(h.Bytes()))
			})
			if err == nil {
				g = x // else it can't even be read (C03)
			}
		}
		var err error
		c.Must("validating", func() { err = g.POW.Validate(&g, g.POW.EdgeBits) })
		if (err == nil) != want {
			c.Fatalf("the proof of work is valid: %v, but validating it: %v", want, err)
		}
		var herr error
		c.Must("validating", func() { herr = g.Validate() })
		if !want && herr == nil {
			c.Fatalf("the header is accepted")
		}
	}
	p.Part("unchanged", kit.Budget{Quick: 60, Thorough: 200, Shards: 4}, func(c *kit.Case) {
		m := rules.Pick(c, good, "header")
		c.Note("%s %+v", m.Name, m.Header)
		verify(c, m.Header, m.Header, true)
	})
	p.Part("header", kit.Budget{Quick: 20000, Thorough: 600000, Shards: 8}, func(c *kit.Case) {
		m := rules.Pick(c, good, "header")
		h := m.Header
		b := h.Bytes()
		n := len(h.PrePow())
		var what string
		if rapid.IntRange(0, 3).Draw(c.T, "kind") < 3 {
			i, bit := rapid.IntRange(0, n-1).Draw(c.T, "byte"), rapid.IntRange(0, 7).Draw(c.T, "bit")
			b[i] ^= 1 << bit
			what = fmt.Sprintf("bit %d of byte %d", bit, i)
		} else {
			i := rapid.IntRange(0, n-1).Draw(c.T, "byte")
			x := gen.Bytes(c.T, "bytes", min(n-i, rapid.IntRange(1, 32).Draw(c.T, "many")))
			copy(b[i:], x)
			what = fmt.Sprintf("%x at %d", x, i)
		}
		x, err := ref.ParseHeader(&ref.Reader{B: b})
		if err != nil {
			c.Fatalf("%v", err)
		}
		c.Note("%s with %s changed", m.Name, what)
		c.Class("byte %d0s", indexDiff(b, m.Header.Bytes())/10)
		changed := !bytes.Equal(b, m.Header.Bytes())
		if changed {
			c.NonTrivial()
		}
		verify(c, m.Header, x, !changed)
	})
	// Cycles of other lengths, which small graphs have many of.
	p.Part("other lengths", kit.Budget{Quick: 1500, Thorough: 60000, Shards: 8}, func(c *kit.Case) {
		h := rules.Pick(c, good, "header").Header
		h.Nonce = rapid.Uint64().Draw(c.T, "nonce")
		h.EdgeBits = uint8(rapid.IntRange(6, 9).Draw(c.T, "edge bits"))
		var e [][2]uint64
		for b := uint64(0); b < uint64(1)<<h.EdgeBits/64; b++ {
			x := ref.CuckarooEdges(ref.Keys(h.PrePow()), b, h.EdgeBits)
			e = append(e, x[:]...)
		}
		l := ref.Cycles(e, 2, 84, 12)
		if len(l) == 0 {
			return
		}
		h.Edges = nil
		for _, n := range l[rapid.IntRange(0, len(l)-1).Draw(c.T, "cycle")] {
			h.Edges = append(h.Edges, uint32(n))
		}
		if len(h.Edges) == 42 {
			return
		}
		c.Note("cycle %v of %+v", h.Edges, h)
		c.Class("length %d", len(h.Edges))
		c.NonTrivial()
		g := conv.Header(h)
		var err, herr error
		c.Must("validating", func() { err = g.POW.Validate(&g, h.EdgeBits); herr = g.Validate() })
		if err == nil || herr == nil {
			c.Fatalf("a cycle of %d edges is valid: proof %v, header %v", len(h.Edges), err, herr)
		}
	})
	p.Part("edges", kit.Budget{Quick: 10000, Thorough: 300000, Shards: 8}, func(c *kit.Case) {
		m := rules.Pick(c, good, "header")
		h := m.Header
		h.Edges = append([]uint32{}, h.Edges...)
		i, j := rapid.IntRange(0, 41).Draw(c.T, "i"), rapid.IntRange(0, 41).Draw(c.T, "j")
		op := rapid.IntRange(0, 6).Draw(c.T, "op")
		switch op {
		case 0:
			h.Edges[i] ^= 1 << rapid.IntRange(0, 31).Draw(c.T, "bit")
		case 1:
			h.Edges[i], h.Edges[j] = h.Edges[j], h.Edges[i]
		case 2:
			h.Edges[i] = h.Edges[j]
		case 3:
			h.Edges[i] = rapid.Uint32().Draw(c.T, "edge")
			sort.Slice(h.Edges, func(a, b int) bool { return h.Edges[a] < h.Edges[b] })
		case 4:
			h.Edges = append(h.Edges[:i], h.Edges[i+1:]...)
		case 5:
			h.EdgeBits = uint8(rapid.IntRange(1, 32).Draw(c.T, "edgeBits"))
		case 6:
			h.Edges = h.Edges[:i]
		}
		c.Note("%s with edges %v, edge bits %d", m.Name, h.Edges, h.EdgeBits)
		c.NonTrivial()
		c.Class("op %d", op)
		verify(c, m.Header, h, rules.PowOK(&h))
	})
	// another header's proof
	p.Part("borrowed", kit.Budget{Quick: 300, Thorough: 2000, Shards: 4}, func(c *kit.Case) {
		a, b := rules.Pick(c, good, "header"), rules.Pick(c, good, "proof")
		h := a.Header
		h.EdgeBits, h.Edges = b.Header.EdgeBits, b.Header.Edges
		c.Note("%s with the proof of %s", a.Name, b.Name)
		if a.Name != b.Name {
			c.NonTrivial()
		}
		verify(c, a.Header, h, a.Name == b.Name)
	})
}

func indexDiff(a, b []byte) int {
	for i := range a {
		if a[i] != b[i] {
			return i
		}
	}
	return 0
}

// TestC11: header rules.
func TestC11(t *testing.T) {
	p := kit.New(t, "C11", "a mined header (with a good proof of work), or a version and height around a fork",
		"the clock is simulated with testing/synctest")

	p.Part("versions", kit.Budget{Quick: 40000, Thorough: 2000000, Shards: 4}, func(c *kit.Case) {
		h := rapid.OneOf(rapid.Uint64(), rapid.Uint64Range(0, 600000),
			rapid.Custom(func(t *rapid.T) uint64 {
				return rapid.SampledFrom([]uint64{0, 95000, 250000, 500000, 750000}).Draw(t, "fork") + rapid.Uint64Range(0, 4).Draw(t, "plus") - 2
			}),
			rapid.Custom(func(t *rapid.T) uint64 { // low when it is cut
				return uint64(1)<<rapid.IntRange(8, 63).Draw(t, "bit") + rapid.Uint64Range(0, 600000).Draw(t, "low")
			})).Draw(c.T, "height")
		v := rapid.OneOf(rapid.Uint16Range(0, 5), rapid.Uint16()).Draw(c.T, "version")
		c.Note("version %d at height %d", v, h)
		if rules.VersionOK(h, 1) || rules.VersionOK(h, 2) || rules.VersionOK(h, 3) {
			c.NonTrivial()
		}
		if got := consensus.ValidateBlockVersion(h, v); got != rules.VersionOK(h, v) {
			c.Fatalf("version %d at height %d: %v", v, h, got)
		}
	})

	mined := data.MinedHeaders()
	seen := map[string]bool{}
	for _, m := range mined {
		h := m.Header
		seen[fmt.Sprintf("%s: version %d height %d edge bits %d scaling %d, proof of work %v, accepted %v", m.Name, h.Version, h.Height, h.EdgeBits,
			h.Scaling, rules.PowOK(&h), rules.HeaderOK(&h, 1<<40))] = true
	}
	var names []string
	for k := range seen {
		names = append(names, k)
	}
	sort.Strings(names)
	p.Extra("mined_headers", names)
	p.Part("mined", kit.Budget{Quick: 3000, Thorough: 60000, Shards: 4}, func(c *kit.Case) {
		m := rules.Pick(c, mined, "header")
		h := m.Header
		// when it is seen, relative to its time; the simulated clock starts in 2000
		var rel int64
		if rapid.IntRange(0, 3).Draw(c.T, "kind") > 0 {
			rel = -720 + rapid.SampledFrom([]int64{-3600 * 24 * 365, -86400, -3600, -60, -2, -1, 0, 1, 2, 60, 719, 720, 721, 3600, 86400}).Draw(c.T, "late")
		} else {
			rel = rapid.Int64Range(-2000, 2000).Draw(c.T, "rel")
		}
		const start = 946684800
		now := h.Time + rel
		if h.Time > 9e9 || h.Time < start+4e7 {
			now = rapid.Int64Range(start, 4e9).Draw(c.T, "now")
		}
		want := rules.HeaderOK(&h, now)
		nano := rapid.SampledFrom([]int64{0, 0, 1, 499999999, 500000000, 999999999}).Draw(c.T, "nanoseconds")
		c.Note("%s at %d, seen at %d.%09d (%+d)", m.Name, h.Time, now, nano, now-h.Time)
		if rules.PowOK(&h) {
			c.NonTrivial()
		}
		c.Class("%s %v", m.Name, want)
		g := conv.Header(h)
		var err error
		rules.AtNano(c, t, now, nano, func() { err = g.Validate() })
		if (err == nil) != want {
			c.Fatalf("the rules say %v, but validating it: %v", want, err)
		}
	})

	// headers as they come from a peer
	p.Part("received", kit.Budget{Quick: 2000, Thorough: 40000, Shards: 4}, func(c *kit.Case) {
		m := rules.Pick(c, append([]data.Mined{data.Unreadable()}, mined...), "header")
		h := m.Header
		now := rapid.Int64Range(max(946684800, min(h.Time-2000, 4e9)), 4e9+2000).Draw(c.T, "now")
		if rapid.Bool().Draw(c.T, "about the limit") && h.Time > 1e9 && h.Time < 9e9 {
			now = h.Time - 720 + rapid.Int64Range(-2, 2).Draw(c.T, "rel")
		}
		want := rules.HeaderOK(&h, now)
		c.Note("%s at %d, received at %d", m.Name, h.Time, now)
		if rules.PowOK(&h) {
			c.NonTrivial()
		}
		c.Class("%s %v", m.Name, want)
		var err error
		rules.At(c, t, now, func() {
			var g consensus.BlockHeader
			if err = g.Read(bytes.NewReader(h.Bytes())); err == nil {
				err = g.Validate()
			}
		})
		if (err == nil) != want {
			c.Fatalf("the rules say %v, but reading and validating it: %v", want, err)
		}
	})

	// one change of a good header, by what the rules say about it
	p.Part("changed", kit.Budget{Quick: 4000, Thorough: 100000, Shards: 4}, func(c *kit.Case) {
		m := rules.Pick(c, mined, "header")
		h := m.Header
		h.Edges = append([]uint32{}, h.Edges...)
		switch rapid.IntRange(0, 5).Draw(c.T, "field") {
		case 0:
			h.Version = rapid.Uint16Range(0, 4).Draw(c.T, "version")
		case 1:
			h.Height = rapid.SampledFrom([]uint64{0, 94999, 95000, 249999, 250000, 499999, 500000}).Draw(c.T, "height")
		case 2:
			h.Scaling = rapid.SampledFrom([]uint32{0, 1, 2, 1 << 31}).Draw(c.T, "scaling")
		case 3:
			h.EdgeBits = uint8(rapid.IntRange(24, 32).Draw(c.T, "edgeBits"))
		case 4:
			h.Time += int64(rapid.IntRange(1, 100).Draw(c.T, "time"))
		case 5:
			h.Nonce++
		}
		const now = 4e9
		want := rules.HeaderOK(&h, now)
		c.Note("%s as %+v", m.Name, h)
		c.NonTrivial()
		g := conv.Header(h)
		var err error
		rules.At(c, t, now, func() { err = g.Validate() })
		if (err == nil) != want {
			c.Fatalf("the rules say %v, but validating it: %v", want, err)
		}
	})
}

// TestC16: difficulty of a hash.
func TestC16(t *testing.T) {
	p := kit.New(t, "C16", "a hash that doesn't start with 64 equal bits")
	p.Part("hash", kit.Budget{Quick: 100000, Thorough: 5000000, Shards: 4}, func(c *kit.Case) {
		num := rapid.OneOf(rapid.Uint64(), rapid.Uint64Range(0, 20),
			rapid.Custom(func(t *rapid.T) uint64 {
				return uint64(1)<<rapid.IntRange(0, 63).Draw(t, "bit") + rapid.Uint64Range(0, 2).Draw(t, "plus") - 1
			})).Draw(c.T, "num")
		rest := gen.Bytes(c.T, "rest", 24)
		h := make([]byte, 8)
		for i := range h {
			h[i] = byte(num >> (56 - 8*i))
		}
		h = append(h, rest...)
		c.Note("hash %x", h)
		if num != 0 && num+1 != 0 {
			c.NonTrivial()
		}
		want := new(big.Int).SetUint64(0x0fffffffffffffff)
		if num != 0 {
			want.Div(want, new(big.Int).SetUint64(num))
		}
		var got consensus.Difficulty
		c.Must("FromHash", func() { got = consensus.MinimumDifficulty.FromHash(h) })
		if got.IntoNum() != want.Uint64() {
			c.Fatalf("difficulty %d, want %d", got, want)
		}
		var zero consensus.Difficulty
		if zero.FromHash(h) != got {
			c.Fatalf("the difficulty depends on the receiver")
		}
		if zero.FromNum(num).IntoNum() != num {
			c.Fatalf("number %d comes back as %d", num, zero.FromNum(num))
		}
	})
	p.Part("proof", kit.Budget{Quick: 10000, Thorough: 400000, Shards: 4}, func(c *kit.Case) {
		h := gen.Header(c.T)
		c.Note("edge bits %d, edges %v", h.EdgeBits, h.Edges)
		c.NonTrivial()
		g := conv.Header(h)
		var got consensus.Difficulty
		c.Must("ToDifficulty", func() { got = g.POW.ToDifficulty() })
		if uint64(got) != h.PowDifficulty() {
			c.Fatalf("difficulty %d, want %d", got, h.PowDifficulty())
		}
	})
}
