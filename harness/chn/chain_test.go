package chn

import (
	"bytes"
	"fmt"
	"testing"
	"time"

	"github.com/dblokhin/gringo/chain"
	"github.com/dblokhin/gringo/consensus"
	"golang.org/x/crypto/blake2b"
	"pgregory.net/rapid"

	"verif/harness/conv"
	"verif/harness/data"
	"verif/harness/gen"
	"verif/harness/kit"
	"verif/harness/ref"
	"verif/harness/rules"
)

// store is a storage over a list of blocks of ascending heights. The check
// keeps it honest: it counts what changes it.
type store struct {
	blocks  []*consensus.Block
	last    *consensus.Block
	changes int
}

func (s *store) AddBlock(*consensus.Block)  { s.changes++ }
func (s *store) DelBlock(consensus.BlockID) { s.changes++ }
func (s *store) GetLastBlock() *consensus.Block {
	return s.last
}

func (s *store) find(id consensus.BlockID) int {
	for i, b := range s.blocks {
		if (id.Hash == nil || bytes.Equal(b.Hash(), id.Hash)) && (id.Height == nil || *id.Height == b.Header.Height) {
			return i
		}
	}
	return -1
}

func (s *store) GetBlock(id consensus.BlockID) *consensus.Block {
	if i := s.find(id); i >= 0 {
		return s.blocks[i]
	}
	return nil
}

func (s *store) From(id consensus.BlockID, limit int) (out consensus.BlockList) {
	if i := s.find(id); i >= 0 {
		for ; i < len(s.blocks) && len(out) < limit; i++ {
			out = append(out, *s.blocks[i])
		}
	}
	return
}

// filler makes the header of a block that is only stored.
func filler(seed uint64, height uint64) ref.Header {
	h := ref.Header{Version: 1, Height: height, Time: 1500000000 + int64(height)*60, Scaling: 1, EdgeBits: 29}
	x := gen.Expand(seed^height*0x9e3779b97f4a7c15, 42*4)
	for i := 0; i < 42; i++ {
		h.Edges = append(h.Edges, (uint32(x[4*i])<<24|uint32(x[4*i+1])<<16|uint32(x[4*i+2])<<8|uint32(x[4*i+3]))>>3)
	}
	copy(h.Prev[:], gen.Expand(seed+height, 32))
	return h
}

func block(h ref.Header) *consensus.Block { return conv.Block(ref.Block{Header: h}) }

func state(c *chain.Chain) string {
	h, g := c.Head(), c.Genesis()
	return fmt.Sprintf("height %d total difficulty %d head %x %+v genesis %x %+v", c.Height(), c.TotalDifficulty(), h.Hash(), conv.BackHeader(&h.Header), g.Hash(), conv.BackHeader(&g.Header))
}

// TestC17: what a peer gets for a locator, and blocks by hash.
func TestC17(t *testing.T) {
	p := kit.New(t, "C17", "a locator with at least one hash of the chain",
		"the storage is a model of one: it finds blocks by hash and height, in order of height")
	p.Part("locator", kit.Budget{Quick: 1200, Thorough: 40000, Shards: 8}, func(c *kit.Case) {
		seed := rapid.Uint64().Draw(c.T, "seed")
		n := rapid.OneOf(rapid.IntRange(1, 40), rapid.IntRange(500, 530), rapid.IntRange(1, 600)).Draw(c.T, "blocks")
		s := &store{}
		var heads []ref.Header
		for i := 0; i < n; i++ {
			heads = append(heads, filler(seed, uint64(i)))
			s.blocks = append(s.blocks, block(heads[i]))
		}
		s.last = s.blocks[n-1]
		if n == 1 && rapid.Bool().Draw(c.T, "genesis only") {
			s.blocks, s.last = nil, nil
		}
		ch := chain.New(block(heads[0]), s)
		for q := 0; q < 3; q++ {
			var loc consensus.Locator
			var at []int
			m := rapid.OneOf(rapid.IntRange(0, 4), rapid.IntRange(0, 16), rapid.IntRange(12, 17)).Draw(c.T, "hashes")
			unknown := 0
			if m > 0 {
				unknown = rapid.OneOf(rapid.IntRange(0, m), rapid.Just(0), rapid.Just(m-1)).Draw(c.T, "unknown")
			}
			for i := 0; i < m; i++ {
				if i < unknown || rapid.IntRange(0, 3).Draw(c.T, "kind") == 3 {
					at = append(at, -1)
					loc.Hashes = append(loc.Hashes, gen.Expand(rapid.Uint64().Draw(c.T, "hash"), 32))
					continue
				}
				x := rapid.OneOf(rapid.IntRange(0, n-1), rapid.Just(n-1), rapid.Just(0)).Draw(c.T, "at")
				at = append(at, x)
				h := heads[x].Hash()
				loc.Hashes = append(loc.Hashes, h[:])
			}
			c.Note("chain of %d blocks (seed %d), locator with the heights %v (-1: unknown)", n, seed, at)
			var want []ref.Header
			for i, x := range at {
				if i < ref.MaxLocator && x >= 0 {
					want = heads[x+1 : min(n, x+1+ref.MaxHeaders)]
					c.NonTrivial()
					c.Class("%s headers", map[bool]string{true: "most", false: "fewer"}[len(want) == ref.MaxHeaders])
					break
				}
			}
			var got []consensus.BlockHeader
			c.Must("GetBlockHeaders", func() { got = ch.GetBlockHeaders(loc) })
			if len(got) != len(want) {
				c.Fatalf("%d headers, want %d", len(got), len(want))
			}
			for i := range got {
				if g := conv.BackHeader(&got[i]); fmt.Sprint(g) != fmt.Sprint(want[i]) {
					c.Fatalf("header %d is %+v, want %+v", i, g, want[i])
				}
			}
			// a full answer must be acceptable to whoever asked
			if len(got) > ref.MaxHeaders {
				c.Fatalf("%d headers", len(got))
			}
		}
		if s.changes != 0 {
			c.Fatalf("the storage was changed")
		}
	})
	p.Part("block", kit.Budget{Quick: 1500, Thorough: 30000, Shards: 8}, func(c *kit.Case) {
		seed := rapid.Uint64().Draw(c.T, "seed")
		n := rapid.IntRange(1, 20).Draw(c.T, "blocks")
		s := &store{}
		for i := 0; i < n; i++ {
			s.blocks = append(s.blocks, block(filler(seed, uint64(i))))
		}
		s.last = s.blocks[n-1]
		ch := chain.New(s.blocks[0], s)
		x := rapid.IntRange(-2, n-1).Draw(c.T, "which")
		c.Note("chain of %d blocks (seed %d), asked for %d", n, seed, x)
		var hash consensus.Hash
		var want *consensus.Block
		switch x {
		case -2:
		case -1:
			hash = gen.Expand(seed, 32)
		default:
			want = s.blocks[x]
			hash = want.Hash()
			c.NonTrivial()
		}
		var got *consensus.Block
		c.Must("GetBlock", func() { got = ch.GetBlock(hash) })
		if got != want {
			c.Fatalf("block %v, want %v", got, want)
		}
		if x >= 0 {
			height := uint64(x)
			for i, id := range []consensus.BlockID{{Hash: hash}, {Height: &height}, {Hash: hash, Height: &height}} {
				if g := ch.GetBlockID(id); g != want {
					c.Fatalf("by identity %d: block %v, want %v", i, g, want)
				}
			}
			other := uint64(n)
			if g := ch.GetBlockID(consensus.BlockID{Hash: hash, Height: &other}); g != nil {
				c.Fatalf("block %v at a height that it isn't at", g)
			}
		}
	})
}

// TestC21: the state of a new chain.
func TestC21(t *testing.T) {
	p := kit.New(t, "C21", "a storage with a last block other than the genesis block", "the storage is a model of one")
	p.Part("new", kit.Budget{Quick: 20000, Thorough: 400000, Shards: 8}, func(c *kit.Case) {
		g, l := gen.Header(c.T), gen.Header(c.T)
		stored := rapid.IntRange(0, 3).Draw(c.T, "stored") > 0
		c.Note("genesis %+v\nlast %+v\nstored: %v", g, l, stored)
		s := &store{}
		want := g
		if stored {
			s.last = block(l)
			want = l
			c.NonTrivial()
		}
		gb := block(g)
		var ch *chain.Chain
		c.Must("New", func() { ch = chain.New(gb, s) })
		head, gen := ch.Head(), ch.Genesis()
		if ch.Height() != want.Height || uint64(ch.TotalDifficulty()) != want.TD {
			c.Fatalf("height %d and total difficulty %d, want %d and %d", ch.Height(), ch.TotalDifficulty(), want.Height, want.TD)
		}
		if fmt.Sprint(conv.BackHeader(&head.Header)) != fmt.Sprint(want) {
			c.Fatalf("head %+v, want %+v", conv.BackHeader(&head.Header), want)
		}
		if fmt.Sprint(conv.BackHeader(&gen.Header)) != fmt.Sprint(g) {
			c.Fatalf("genesis %+v, want %+v", conv.BackHeader(&gen.Header), g)
		}
		if s.changes != 0 {
			c.Fatalf("the storage was changed")
		}
	})

	// the genesis blocks of the known networks can be served like any other
	p.Part("networks", kit.Budget{Quick: 2000, Thorough: 40000, Shards: 4}, func(c *kit.Case) {
		t := c.T
		names := []string{"testnet 1", "testnet 2", "testnet 3", "testnet 4", "main"}
		all := []*consensus.Block{&chain.Testnet1, &chain.Testnet2, &chain.Testnet3, &chain.Testnet4, &chain.Mainnet}
		i := rapid.IntRange(0, len(all)-1).Draw(t, "network")
		g, n := all[i], rapid.IntRange(0, 8).Draw(t, "blocks")
		seed := rapid.Uint64().Draw(t, "seed")
		c.Note("%s, with %d blocks (seed %d)", names[i], n, seed)
		if n > 0 {
			c.NonTrivial()
		}
		h := conv.BackHeader(&g.Header)
		s := &store{blocks: []*consensus.Block{g}}
		heads := []ref.Header{h}
		for k := 1; k <= n; k++ {
			heads = append(heads, filler(seed, uint64(k)))
			s.blocks = append(s.blocks, block(heads[k]))
		}
		if n > 0 {
			s.last = s.blocks[n]
		}
		var ch *chain.Chain
		c.Must("New", func() { ch = chain.New(g, s) })
		if last := heads[n]; ch.Height() != uint64(n) || uint64(ch.TotalDifficulty()) != last.TD || h.Version != 1 || h.Time < 1500000000 || h.Time > 1540000000 {
			c.Fatalf("height %d and total difficulty %d, genesis %+v", ch.Height(), ch.TotalDifficulty(), h)
		}
		hash := h.Hash()
		gen := ch.Genesis()
		var got, head []byte
		c.Must("Bytes", func() { got, head = gen.Bytes(), gen.Header.Bytes() })
		want := ref.Block{Header: h}
		if !bytes.Equal(got, want.Bytes()) || !bytes.Equal(head, h.Bytes()) {
			c.Fatalf("serialised as %x (header: %x), want %x", got, head, want.Bytes())
		}
		if !bytes.Equal(gen.Hash(), hash[:]) {
			c.Fatalf("its hash is %x, want %x", gen.Hash(), hash)
		}
		if b := ch.GetBlock(hash[:]); b != g {
			c.Fatalf("asked for it, the chain gives %v", b)
		}
		if h.EdgeBits > 0 { // of the networks that use this proof of work
			var back consensus.Block
			var err error
			c.Must("Read", func() { err = back.Read(bytes.NewReader(got)) })
			if err != nil || fmt.Sprint(conv.BackHeader(&back.Header)) != fmt.Sprint(h) {
				c.Fatalf("read back: %v, %+v, want %+v", err, conv.BackHeader(&back.Header), h)
			}
		}
		var list []consensus.BlockHeader
		c.Must("GetBlockHeaders", func() { list = ch.GetBlockHeaders(consensus.Locator{Hashes: []consensus.Hash{hash[:]}}) })
		if len(list) != n {
			c.Fatalf("%d headers follow it, want %d", len(list), n)
		}
		for k := range list {
			if b := conv.BackHeader(&list[k]); fmt.Sprint(b) != fmt.Sprint(heads[k+1]) {
				c.Fatalf("header %d is %+v, want %+v", k+1, b, heads[k+1])
			}
		}
		if d := fmt.Sprintf("%x", blake2b.Sum256([]byte(fmt.Sprint(h.Version, h.Height, h.Time, h.Prev, h.TD, h.Nonce, h.Edges)))); d != genesisDigests[i] {
			c.Fatalf("the genesis of %s is another one (digest %s): %+v", names[i], d, h)
		}
		if s.changes != 0 {
			c.Fatalf("the storage was changed")
		}
	})
}

// header is a consensus header with one of the changes that headers get.
func header(c *kit.Case) ref.Header {
	mined := data.MinedHeaders()
	m := rules.Pick(c, mined, "mined")
	h := m.Header
	change := "as it is"
	switch rapid.IntRange(0, 9).Draw(c.T, "change") {
	case 0:
		h.Nonce++
		change = "another nonce"
	case 1:
		h.Edges = append([]uint32{}, h.Edges...)
		h.Edges[3]++
		change = "another edge"
	case 2:
		h.Time = time.Now().Unix() + 86400*365
		change = "in a year"
	}
	c.Note("header %s, %s", m.Name, change)
	return h
}

// TestC20: lists of headers.
func TestC20(t *testing.T) {
	p := kit.New(t, "C20", "a list with at least one good header", "the clock of the machine is between 2019 and 2099")
	p.Part("headers", kit.Budget{Quick: 2000, Thorough: 60000, Shards: 8}, func(c *kit.Case) {
		now := time.Now().Unix()
		var list []consensus.BlockHeader
		want, any := true, false
		good := func() ref.Header {
			for {
				m := rules.Pick(c, data.MinedHeaders(), "good")
				if rules.HeaderOK(&m.Header, now) {
					c.Note("header %s", m.Name)
					return m.Header
				}
			}
		}
		mostly := rapid.Bool().Draw(c.T, "mostly good")
		count := rapid.IntRange(0, 12)
		if rapid.IntRange(0, 19).Draw(c.T, "long") == 19 {
			mostly, count = true, rapid.OneOf(rapid.IntRange(13, 600), rapid.Just(512), rapid.Just(513))
		}
		var all []ref.Header
		for n := count.Draw(c.T, "headers"); n > 0; n-- {
			h := ref.Header{}
			if len(all) >= 12 {
				h = all[(n*n+n)%12] // more of the same
			} else if mostly {
				h = good()
			} else {
				h = header(c)
			}
			ok := rules.HeaderOK(&h, now)
			want, any = want && ok, any || ok
			all = append(all, h)
			list = append(list, conv.Header(h))
		}
		if mostly && len(list) > 0 && rapid.Bool().Draw(c.T, "one bad") {
			i := rapid.IntRange(0, len(list)-1).Draw(c.T, "which")
			c.Note("header %d changed", i)
			h := conv.BackHeader(&list[i])
			h.KernelRoot[0] ^= 1
			list[i] = conv.Header(h)
			want = false
		}
		if any {
			c.NonTrivial()
		}
		c.Class("good: %v", want)
		g := block(filler(1, 0))
		s := &store{}
		listed := func(label string) ref.Header { // before one of them is changed
			return rapid.SampledFrom(all).Draw(c.T, label)
		}
		if rapid.Bool().Draw(c.T, "stored") {
			// a chain that is below, among or above the headers
			h := filler(2, rapid.OneOf(rapid.Uint64Range(0, 1000000), rapid.Uint64Range(1, 6), rapid.Uint64()).Draw(c.T, "chain height"))
			h.TD = rapid.Uint64().Draw(c.T, "chain td")
			if len(all) > 0 {
				switch rapid.IntRange(0, 3).Draw(c.T, "stored headers") {
				case 0:
					h = listed("the last one")
					c.Note("the chain's last block has one of the headers")
				case 1:
					g = block(listed("genesis"))
					c.Note("the genesis block has one of the headers")
				}
				for k := rapid.IntRange(0, 2).Draw(c.T, "more of them"); k > 0; k-- {
					s.blocks = append(s.blocks, block(listed("one of them")))
				}
			}
			s.last = block(h)
			s.blocks = append(s.blocks, g, s.last)
		}
		ch := chain.New(g, s)
		before := state(ch)
		var err error
		c.Must("ProcessHeaders", func() { err = ch.ProcessHeaders(list) })
		if (err == nil) != want {
			c.Fatalf("all good: %v, but: %v", want, err)
		}
		if state(ch) != before || s.changes != 0 {
			c.Fatalf("the chain changed")
		}
	})
}

// genesisDigests are of what tells the headers of the predefined genesis blocks from others:
// testnets 1 to 4 and the main network.
var genesisDigests = []string{
	"8a8a18cd35970f65623da93d85c4caa65a6c14668b6961c73bc936582a49946e",
	"b9bf0c5ab1bd1c7ccd41cfc01b96ac30e22c67cfacc9991227517c4264acad3a",
	"ab80caf66cee7dfaff5958a0f676f8f4cec47231e21f8a7af6a937e67a4f9dce",
	"034cb7534832a0b7b54a053ad46f7ce6950119245682ce408778ae6114f20f4c",
	"0bf8ba6809d826ca8e83d69438f95cb765c6f22cd33f0552ee7b4f8898757772",
}
