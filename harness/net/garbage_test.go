package net

import (
	"bytes"
	"fmt"
	"net"
	"strings"
	"testing"
	"time"

	"github.com/dblokhin/gringo/chain"
	"github.com/dblokhin/gringo/consensus"
	"github.com/dblokhin/gringo/p2p"
	"pgregory.net/rapid"

	"verif/harness/conv"
	"verif/harness/data"
	"verif/harness/gen"
	"verif/harness/kit"
	"verif/harness/msgs"
	"verif/harness/ref"
)

// badFrame draws a frame that isn't one, and says what it is. cut: the
// connection has to end after it.
func badFrame(c *kit.Case) (b []byte, what string, cut bool) {
	t := c.T
	kind := rapid.SampledFrom([]string{"magic", "type", "length", "body", "body", "body", "cut", "noise"}).Draw(t, "malformed")
	c.Class("%s", kind)
	x := rapid.SampledFrom(msgs.Targets).Filter(func(x msgs.Target) bool { return x.Name != "error" }).Draw(t, "kind")
	typ := x.Wire().Type
	switch kind {
	case "magic":
		body, _ := x.Gen(t)
		b = ref.Frame(typ, body)
		at := rapid.IntRange(0, 1).Draw(t, "byte")
		b[at] ^= byte(rapid.IntRange(1, 255).Draw(t, "bits"))
		return b, fmt.Sprintf("%s with magic %x", x.Name, b[:2]), false
	case "type":
		typ = rapid.OneOf(rapid.SampledFrom([]uint8{0, 1, 2, 14, 16, 17, 18, 255}), rapid.Uint8Range(16, 255)).Draw(t, "type")
		body := gen.Bytes(t, "body", rapid.SampledFrom([]int{0, 1, 16, 50}).Draw(t, "size"))
		if rapid.Bool().Draw(t, "of another message") {
			body, _ = x.Gen(t)
		}
		switch typ {
		case ref.TError:
			body = ref.PeerError(7, "no")
		case ref.TShake:
			s := ref.Shake{Version: 1, Caps: 7, TD: 5, Agent: "remote", Genesis: genesis}
			body = s.Bytes()
		}
		return ref.Frame(typ, body), fmt.Sprintf("type %d", typ), false
	case "length":
		n := rapid.OneOf(rapid.SampledFrom([]uint64{ref.MaxMsg + 1, 1 << 31, 1 << 32, 1 << 62, 1<<63 - 1, 1 << 63, 1<<64 - 1}), rapid.Uint64Range(ref.MaxMsg+1, 1<<64-1)).Draw(t, "length")
		body, _ := x.Gen(t)
		b = ref.Frame(typ, body)
		copy(b[3:], msgs.BE(8, n))
		return b, fmt.Sprintf("%s with length %d", x.Name, n), false
	case "cut":
		body, _ := x.Gen(t)
		b = ref.Frame(typ, body)
		return b[:rapid.OneOf(rapid.IntRange(1, min(len(b)-1, 12)), rapid.IntRange(1, len(b)-1)).Draw(t, "cut")], "cut short", true
	case "noise":
		b = gen.Bytes(t, "noise", rapid.IntRange(11, 80).Draw(t, "size"))
		if b[0] == 0x54 {
			b[0] = 0x47
		}
		return b, "noise", false
	}
	for try := 0; try < 6; try++ {
		body, marks := x.Gen(t)
		bad, how := msgs.Corrupt(t, body, marks)
		if _, _, ok := x.Wire().Parse(bad); !ok {
			return ref.Frame(typ, bad), x.Name + how, false
		}
	}
	body, _ := x.Gen(t)
	bad := body[:rapid.IntRange(0, len(body)-1).Draw(t, "size")]
	if _, _, ok := x.Wire().Parse(bad); ok {
		bad = nil
	}
	return ref.Frame(typ, bad), x.Name + " too short", false
}

// reply waits until a peer of a node without Run is answered.
func reply(c *kit.Case, l *link, when string) {
	if !l.barrier(77, 78) {
		noFatal(c)
		c.Fatalf("%s: the other peer isn't answered", when)
	}
}

// direct connects without the pool's help.
func direct(c *kit.Case, n *node, r *remote) (*p2p.Peer, *link) {
	var peer *p2p.Peer
	var err error
	c.Must("NewPeer", func() { peer, err = p2p.NewPeer(n.Syncer, r.addr) })
	if err != nil {
		c.Fatalf("a good handshake fails: %v", err)
	}
	if pi := n.Pool.PeerInfo(r.addr); pi != nil {
		pi.Lock()
		pi.Peer = peer
		pi.Unlock()
	}
	peer.Start()
	if !eventually(func() bool { return r.live() != nil }) {
		c.Fatalf("no connection")
	}
	return peer, r.live()
}

// deliver sends bytes as far as the node takes them, and ends the sending side
// if asked to.
func deliver(l *link, b []byte, pieces []int, cut bool) {
	l.SetWriteDeadline(time.Now().Add(patience))
	if send(l, b, pieces) == nil && cut {
		if tc, ok := l.Conn.(*net.TCPConn); ok {
			tc.CloseWrite()
		}
	}
}

// TestC30: malformed traffic.
func TestC30(t *testing.T) {
	p := kit.New(t, "C30", "every case: malformed or corrupted traffic to a node",
		"bytes after a complete message in a frame's body are not judged", "what must happen may take 25 seconds")

	p.Part("frame", kit.Budget{Quick: 2400, Thorough: 80000, Shards: 48, Journal: true}, func(c *kit.Case) {
		bad, good := newRemote(nil), newRemote(nil)
		defer bad.close()
		defer good.close()
		w, n := newWorld(c, bad)
		n.Pool.Add(good.addr)
		w.table[good.addr] = true
		n.set(5, 1<<50)
		pb, l := direct(c, n, bad)
		defer pb.Close()
		pg, v := direct(c, n, good)
		defer pg.Close()
		var kinds []string
		for k := small(c.T, "before", 5); k > 0; k-- {
			kinds = append(kinds, w.step(c))
		}
		b, what, cut := badFrame(c)
		kinds = append(kinds, "malformed: "+what)
		out := append(append([]byte{}, w.out...), b...)
		if !cut {
			calls, sent, table, td, height := w.calls, w.sent, w.table, w.td, w.height
			w.out, w.table = nil, map[string]bool{}
			for k := small(c.T, "after", 3); k > 0; k-- {
				kinds = append(kinds, w.step(c))
			}
			out = append(out, w.out...)
			w.calls, w.sent, w.table, w.td, w.height = calls, sent, table, td, height
		}
		c.Note("%s\n%s", strings.Join(kinds, ", "), brief(b))
		c.NonTrivial()
		go deliver(l, out, plan(c, len(out)), cut)
		if !eventually(l.isClosed) {
			noFatal(c)
			c.Fatalf("the connection isn't closed")
		}
		c.Must("WaitForDisconnect", pb.WaitForDisconnect)
		w.sameCalls(c, "after the malformed frame", false)
		// the answers before it, as far as they came through
		got := l.log()
		for i, f := range got {
			if i >= len(w.sent) || !w.sent[i].matches(f) {
				c.Fatalf("message %d of the node is %d %s", i, f.typ, brief(f.body))
			}
		}
		if n.isBan(c, good.addr) {
			c.Fatalf("the other peer is banned")
		}
		if got := n.table(0); (expect{typ: ref.TAddrs, addrs: w.addrs(0).addrs, count: w.addrs(0).count}).count != len(got) {
			c.Fatalf("the table lists %d addresses instead of %d", len(got), w.addrs(0).count)
		}
		if len(kinds) > 0 {
			if td, height, ok := n.status(bad.addr); ok && (td != w.td || height != w.height) {
				c.Fatalf("the node thinks the peer is at %d, %d instead of %d, %d", td, height, w.td, w.height)
			}
		}
		reply(c, v, "after the malformed frame")
		noFatal(c)
	})

	// with the pool: the peer may come back, as good as new
	p.Part("pool", kit.Budget{Quick: 96, Thorough: 2000, Shards: 96, Journal: true, Shrink: 5 * time.Second}, func(c *kit.Case) {
		bad, good := newRemote(nil), newRemote(nil)
		defer bad.close()
		defer good.close()
		n := newNode(newModel(), true, bad.addr, good.addr)
		n.start()
		defer n.stop()
		up(c, bad, good)
		c.NonTrivial()
		for k := rapid.IntRange(1, 2).Draw(c.T, "times"); k > 0; k-- {
			b, what, cut := badFrame(c)
			c.Note("%s: %s", what, brief(b))
			l := bad.live()
			go deliver(l, b, nil, cut)
			if !eventually(l.isClosed) {
				noFatal(c)
				c.Fatalf("the connection isn't closed")
			}
			reply(c, good.live(), "after the malformed frame")
			if !within(2*patience, func() bool { x := bad.live(); return x != nil && x != l && len(x.log()) >= 2 }) {
				c.Fatalf("the node doesn't connect again")
			}
			reply(c, bad.live(), "after connecting again")
			if n.isBan(c, bad.addr) {
				c.Fatalf("the peer is banned")
			}
		}
		if len(good.all()) != 1 {
			c.Fatalf("the other peer was disconnected")
		}
		if calls := n.model.log(); len(calls) > 0 {
			c.Fatalf("something reached the chain: %s", brief([]byte(calls[0])))
		}
		noFatal(c)
		n.stop()
		if !n.stopped() {
			c.Fatalf("Run doesn't return")
		}
	})

	// anything at all, against a real chain
	p.Part("chain", kit.Budget{Quick: 1200, Thorough: 60000, Shards: 48, Journal: true}, func(c *kit.Case) {
		t := c.T
		s := newLedger(rapid.IntRange(0, 30).Draw(t, "blocks"))
		ch := chain.New(s.blocks[0], s)
		good := newRemote(nil)
		defer good.close()
		n := &node{model: newModel(), ran: make(chan struct{})}
		var mp p2p.Mempool
		if rapid.Bool().Draw(t, "mempool") {
			mp = n.model
		}
		n.Syncer = p2p.NewSyncer([]string{good.addr}, ch, mp)
		pg, v := direct(c, n, good)
		defer pg.Close()
		before := fmt.Sprint(ch.Height(), ch.TotalDifficulty())
		mined := data.MinedHeaders()
		for k := rapid.IntRange(1, 3).Draw(t, "attackers"); k > 0; k-- {
			bad := newRemote(nil)
			defer bad.close()
			n.Pool.Add(bad.addr)
			pb, l := direct(c, n, bad)
			defer pb.Close()
			var out []byte
			for m := rapid.IntRange(1, 4).Draw(t, "messages"); m > 0; m-- {
				var b []byte
				var what string
				switch rapid.IntRange(0, 7).Draw(t, "what") {
				case 0:
					b, what, _ = badFrame(c)
				case 1: // a real block, corrupted or not
					body, how := realBlock, ""
					if rapid.Bool().Draw(t, "corrupt") {
						body, how = msgs.Corrupt(t, body, nil)
					}
					b, what = ref.Frame(ref.TBlock, body), "real block"+how
				case 2: // mined headers
					var l []ref.Header
					for k := rapid.IntRange(1, 4).Draw(t, "headers"); k > 0; k-- {
						l = append(l, rapid.SampledFrom(mined).Draw(t, "header").Header)
					}
					b, what = ref.Frame(ref.THeaders, ref.Headers(l)), "mined headers"
				case 3:
					x := ref.Block{Header: rapid.SampledFrom(mined).Draw(t, "header").Header, Body: gen.Body(t, 3)}
					b, what = ref.Frame(ref.TBlock, x.Bytes()), "block with a mined header"
				default:
					x := rapid.SampledFrom(msgs.Targets).Draw(t, "kind")
					body, marks := x.Gen(t)
					how := ""
					if rapid.Bool().Draw(t, "corrupt") {
						body, how = msgs.Corrupt(t, body, marks)
					}
					b, what = ref.Frame(x.Wire().Type, body), x.Name+how
				}
				c.Note("%s: %s", what, brief(b))
				out = append(out, b...)
			}
			done := make(chan struct{})
			go func() { deliver(l, out, nil, true); close(done) }()
			c.NonTrivial()
			// the end of the stream ends it, at the latest
			if !eventually(l.isClosed) {
				noFatal(c)
				c.Fatalf("the connection isn't closed")
			}
			<-done
			c.Must("WaitForDisconnect", pb.WaitForDisconnect)
			noFatal(c)
			reply(c, v, "after the attack")
		}
		// the chain is as it was and answers
		if after := fmt.Sprint(ch.Height(), ch.TotalDifficulty()); after != before {
			c.Fatalf("height and total difficulty were %s and are %s", before, after)
		}
		at := rapid.IntRange(0, len(s.blocks)-1).Draw(t, "known block")
		have := v.count(ref.THeaders)
		hash := s.headers[at].Hash()
		v.Write(ref.Frame(ref.TGetHeaders, ref.Locator([][32]byte{hash})))
		v.Write(ref.Frame(ref.TGetBlock, hash[:]))
		if !eventually(func() bool { return v.count(ref.THeaders) > have && v.count(ref.TBlock) > 0 }) {
			noFatal(c)
			c.Fatalf("requests for headers and a block aren't answered")
		}
		want := ref.Headers(s.headers[at+1:])
		for _, f := range v.log() {
			if f.typ == ref.THeaders && !bytes.Equal(f.body, want) {
				c.Fatalf("headers %s instead of %s", brief(f.body), brief(want))
			}
		}
		noFatal(c)
	})
}

// ledger is a storage over a list of linked blocks.
var realBlock = func() []byte { b := data.Testnet4Block(); return b.BytesAsGiven() }()

type ledger struct {
	headers []ref.Header
	blocks  []*consensus.Block
}

func newLedger(n int) *ledger {
	s := &ledger{}
	prev := conv.BackHeader(&chain.Testnet4.Header)
	for i := 0; i <= n; i++ {
		h := prev
		if i > 0 {
			h = ref.Header{Version: 1, Height: uint64(i), Time: 1500000000 + int64(i)*60, Scaling: 1, EdgeBits: 29, Prev: prev.Hash(), TD: uint64(1000 + i)}
			x := gen.Expand(uint64(i)*0x9e3779b97f4a7c15, 42*4)
			for j := 0; j < 42; j++ {
				h.Edges = append(h.Edges, (uint32(x[4*j])<<24|uint32(x[4*j+1])<<16|uint32(x[4*j+2])<<8|uint32(x[4*j+3]))>>3)
			}
		}
		s.headers = append(s.headers, h)
		s.blocks = append(s.blocks, conv.Block(ref.Block{Header: h}))
		prev = h
	}
	s.blocks[0] = &chain.Testnet4 // the real one
	return s
}

func (s *ledger) AddBlock(*consensus.Block)      {}
func (s *ledger) DelBlock(consensus.BlockID)     {}
func (s *ledger) GetLastBlock() *consensus.Block { return s.blocks[len(s.blocks)-1] }
func (s *ledger) find(id consensus.BlockID) int {
	for i := range s.blocks {
		h := s.headers[i].Hash()
		if (id.Hash == nil || bytes.Equal(h[:], id.Hash)) && (id.Height == nil || *id.Height == uint64(i)) {
			return i
		}
	}
	return -1
}
func (s *ledger) GetBlock(id consensus.BlockID) *consensus.Block {
	if i := s.find(id); i >= 0 {
		return s.blocks[i]
	}
	return nil
}
func (s *ledger) From(id consensus.BlockID, limit int) (out consensus.BlockList) {
	if i := s.find(id); i >= 0 {
		for ; i < len(s.blocks) && len(out) < limit; i++ {
			out = append(out, *s.blocks[i])
		}
	}
	return
}
