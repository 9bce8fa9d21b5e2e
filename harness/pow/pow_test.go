package pow

import (
	"fmt"
	"sort"
	"testing"

	"github.com/dblokhin/gringo/cuckoo"
	"pgregory.net/rapid"

	"verif/harness/data"
	"verif/harness/gen"
	"verif/harness/kit"
	"verif/harness/ref"
)

// graph is a keyed graph with the nonces 0..len(edges)-1, of which the first
// limit are allowed in proofs.
type graph struct {
	edges  [][2]uint64
	limit  uint64
	verify func(nonces []uint32) bool
	name   string
}

func cuckaroo(key []byte, edgeBits uint8) graph {
	v := ref.Keys(key)
	g := graph{limit: 1 << edgeBits, name: fmt.Sprintf("cuckaroo key %x edge bits %d", key, edgeBits)}
	// twice as many nonces as allowed: some cycles use the others
	for b := uint64(0); b < uint64(2)<<edgeBits/64; b++ {
		e := ref.CuckarooEdges(v, b, edgeBits)
		g.edges = append(g.edges, e[:]...)
	}
	g.verify = func(n []uint32) bool { return cuckoo.NewCuckaroo(key).Verify(n, edgeBits) }
	return g
}

func original(key []byte, sizeShift uint8, ease uint64) graph {
	v := ref.Keys(key)
	g := graph{limit: ease << sizeShift / 100, name: fmt.Sprintf("cuckoo key %x size shift %d ease %d", key, sizeShift, ease)}
	for n := uint64(0); n < 1<<sizeShift; n++ {
		a, b := ref.CuckooEdge(v, n, sizeShift)
		g.edges = append(g.edges, [2]uint64{a, b})
	}
	g.verify = func(n []uint32) bool { return cuckoo.New(key, sizeShift).Verify(n, ease) }
	return g
}

// valid is the rule: ascending allowed nonces whose edges are one simple cycle.
func (g graph) valid(nonces []int) bool {
	var e [][2]uint64
	for i, n := range nonces {
		if uint64(n) >= g.limit || i > 0 && n <= nonces[i-1] {
			return false
		}
		e = append(e, g.edges[n])
	}
	return ref.SimpleCycle(e)
}

func union(a, b []int) (out []int) {
	set := map[int]bool{}
	for _, l := range [][]int{a, b} {
		for _, x := range l {
			if !set[x] {
				set[x] = true
				out = append(out, x)
			}
		}
	}
	sort.Ints(out)
	return
}

func without(l []int, i int) []int { return append(append([]int{}, l[:i]...), l[i+1:]...) }

func (g graph) check(c *kit.Case, what string, nonces []int) {
	// two parallel edges: a cycle only in a loose sense, and no proof has two
	if len(nonces) == 2 {
		return
	}
	want := g.valid(nonces)
	c.Class("%s: %v", what, want)
	var n []uint32
	for _, x := range nonces {
		n = append(n, uint32(x))
	}
	var got bool
	c.Must("verifying", func() { got = g.verify(n) })
	if got != want {
		c.Fatalf("%s %v is a cycle: %v, but it verifies: %v", what, nonces, want, got)
	}
}

func (g graph) run(c *kit.Case) {
	c.Note("%s", g.name)
	// mostly cycles of allowed nonces only
	searched := g.edges
	if rapid.IntRange(0, 3).Draw(c.T, "allowed") > 0 {
		searched = searched[:min(g.limit, uint64(len(searched)))]
	}
	cycles := ref.Cycles(searched, 4, 64, 24)
	if len(cycles) > 0 {
		c.NonTrivial()
	}
	pick := func(l [][]int, label string) []int { return l[rapid.IntRange(0, len(l)-1).Draw(c.T, label)] }
	for i := 0; i < 6 && len(cycles) > 0; i++ {
		x := pick(cycles, "cycle")
		c.Note("cycle %v", x)
		g.check(c, "cycle", x)
		at := rapid.IntRange(0, len(x)-1).Draw(c.T, "at")
		g.check(c, "cycle less one", without(x, at))
		other := rapid.IntRange(0, len(g.edges)-1).Draw(c.T, "other")
		y := append([]int{}, x...)
		y[at] = other
		g.check(c, "cycle with another nonce", y)
		sort.Ints(y)
		g.check(c, "cycle with another nonce, sorted", y)
		g.check(c, "cycle and one more", union(x, []int{other}))
		y = append([]int{}, x...)
		y[at], y[0] = y[0], y[at]
		g.check(c, "cycle reordered", y)
		y = append([]int{}, x...)
		y[at] = y[(at+1)%len(y)]
		g.check(c, "cycle with one repeated", y)
		sort.Ints(y)
		g.check(c, "cycle with one repeated, sorted", y)
		g.check(c, "two cycles", union(x, pick(cycles, "second")))
		g.check(c, "three cycles", union(union(x, pick(cycles, "second")), pick(cycles, "third")))
		y = append([]int{}, x...)
		g.check(c, "cycle twice", append(y, x...))
		sort.Sort(sort.Reverse(sort.IntSlice(y)))
		g.check(c, "cycle backwards", y)
	}
	if l := ref.ClosedTrails(g.edges, cycles); len(l) > 0 {
		for i := 0; i < 4; i++ {
			g.check(c, "closed trail", pick(l, "trail"))
		}
	}
	if l := ref.DisjointPairs(g.edges, cycles); len(l) > 0 {
		for i := 0; i < 4; i++ {
			g.check(c, "disjoint pair", pick(l, "pair"))
		}
	}
	var x []int
	for n := rapid.IntRange(0, 44).Draw(c.T, "many"); n > 0; n-- {
		x = union(x, []int{rapid.IntRange(0, len(g.edges)-1).Draw(c.T, "nonce")})
	}
	g.check(c, "any nonces", x)
}

func key(t *rapid.T) []byte {
	return gen.Expand(rapid.Uint64().Draw(t, "key"), rapid.SampledFrom([]int{0, 1, 32, 80, 246}).Draw(t, "keyLen"))
}

// TestC08: cuckoo cycle verifiers.
func TestC08(t *testing.T) {
	p := kit.New(t, "C08", "a graph with at least one cycle of 4 to 64 edges, or a pair of nonce and key",
		"cycles are enumerated in graphs of up to 2^12 edges by a bounded search; larger graphs are covered by mined cycles only")
	p.Part("cuckaroo", kit.Budget{Quick: 8000, Thorough: 250000, Shards: 8}, func(c *kit.Case) {
		cuckaroo(key(c.T), uint8(rapid.IntRange(5, 11).Draw(c.T, "edgeBits"))).run(c)
	})
	p.Part("cuckoo", kit.Budget{Quick: 8000, Thorough: 250000, Shards: 8}, func(c *kit.Case) {
		original(key(c.T), uint8(rapid.IntRange(5, 11).Draw(c.T, "sizeShift")),
			uint64(rapid.OneOf(rapid.IntRange(1, 100), rapid.Just(50), rapid.Just(70)).Draw(c.T, "ease"))).run(c)
	})
	// the edges themselves, for all nonces and sizes
	p.Part("edges", kit.Budget{Quick: 40000, Thorough: 2000000, Shards: 8}, func(c *kit.Case) {
		k := key(c.T)
		nonce := rapid.OneOf(rapid.Uint32(), rapid.Uint32Range(0, 200)).Draw(c.T, "nonce")
		bits := uint8(rapid.IntRange(1, 32).Draw(c.T, "bits"))
		c.Note("key %x nonce %d bits %d", k, nonce, bits)
		c.NonTrivial()
		want := ref.CuckarooEdges(ref.Keys(k), uint64(nonce)/64, bits)[nonce%64]
		for _, v := range []*cuckoo.Cuckaroo{cuckoo.NewCuckaroo(k), cuckoo.NewFromKeys(ref.Keys(k))} {
			if e := v.NewEdge(nonce, 1<<bits-1); e.U != want[0] || e.V != want[1] {
				c.Fatalf("cuckaroo edge %d %d, want %v", e.U, e.V, want)
			}
		}
		a, b := ref.CuckooEdge(ref.Keys(k), uint64(nonce), bits)
		if e := cuckoo.New(k, bits).NewEdge(nonce); e.U != 2*a || e.V != 2*b+1 {
			c.Fatalf("cuckoo edge %d %d, want %d %d", e.U, e.V, 2*a, 2*b+1)
		}
	})
	// long mined cycles
	var mined []data.Mined
	for _, m := range data.MinedHeaders() {
		if len(m.Header.Edges) == ref.Cycle {
			mined = append(mined, m)
		}
	}
	p.Part("mined", kit.Budget{Quick: 20000, Thorough: 600000, Shards: 8}, func(c *kit.Case) {
		m := mined[rapid.IntRange(0, len(mined)-1).Draw(c.T, "header")].Header
		pre := m.PrePow()
		edges := append([]uint32{}, m.Edges...)
		bits := m.EdgeBits
		switch rapid.IntRange(0, 5).Draw(c.T, "change") {
		case 0:
		case 1:
			bits = uint8(rapid.IntRange(1, 32).Draw(c.T, "bits"))
		case 2:
			edges[rapid.IntRange(0, 41).Draw(c.T, "i")] ^= 1 << rapid.IntRange(0, 31).Draw(c.T, "bit")
		case 3:
			i, j := rapid.IntRange(0, 41).Draw(c.T, "i"), rapid.IntRange(0, 41).Draw(c.T, "j")
			edges[i], edges[j] = edges[j], edges[i]
		case 4:
			i := rapid.IntRange(0, 41).Draw(c.T, "i")
			edges = append(edges[:i], edges[i+1:]...)
		case 5:
			pre = append([]byte{}, pre...)
			pre[rapid.IntRange(0, len(pre)-1).Draw(c.T, "byte")] ^= 1 << rapid.IntRange(0, 7).Draw(c.T, "bit")
		}
		c.Note("header %x edges %v bits %d", pre, edges, bits)
		c.NonTrivial()
		v := ref.Keys(pre)
		want := true
		var e [][2]uint64
		for i, n := range edges {
			want = want && uint64(n) < 1<<bits && (i == 0 || n > edges[i-1])
			e = append(e, ref.CuckarooEdges(v, uint64(n)/64, bits)[n%64])
		}
		want = want && ref.SimpleCycle(e)
		c.Class("valid: %v", want)
		var got bool
		c.Must("verifying", func() { got = cuckoo.NewCuckaroo(pre).Verify(edges, bits) })
		if got != want {
			c.Fatalf("it is a cycle: %v, but it verifies: %v", want, got)
		}
	})
	p.Part("siphash", kit.Budget{Quick: 20000, Thorough: 1000000, Shards: 8}, func(c *kit.Case) {
		var v [4]uint64
		for i := range v {
			v[i] = rapid.Uint64().Draw(c.T, "key")
		}
		in := rapid.SliceOfN(rapid.Uint64(), 1, 4).Draw(c.T, "inputs")
		c.Note("siphash %x of %x", v, in)
		c.NonTrivial()
		h := cuckoo.NewSipHash24(v)
		for _, x := range in {
			h.Write64(x)
		}
		if want := ref.Sip(v, in); h.Sum64() != want {
			c.Fatalf("%x, want %x", h.Sum64(), want)
		}
	})
}
