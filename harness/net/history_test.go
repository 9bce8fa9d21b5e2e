package net

import (
	"bytes"
	"fmt"
	"net"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/dblokhin/gringo/consensus"
	"github.com/dblokhin/gringo/p2p"
	"pgregory.net/rapid"

	"verif/harness/conv"
	"verif/harness/gen"
	"verif/harness/kit"
	"verif/harness/ref"
)

func small(t *rapid.T, label string, hi int) int {
	return rapid.OneOf(rapid.IntRange(0, min(3, hi)), rapid.IntRange(0, hi)).Draw(t, label)
}

func block(t *rapid.T, nonce uint64, items int) ref.Block {
	b := ref.Block{Header: smallHeader(t, nonce)}
	if items > 0 {
		b.Body = gen.Body(t, items)
		b.Body.Sort()
	}
	return b
}

func tx(t *rapid.T, valid bool, items int) ref.Tx {
	x := ref.Tx{Body: gen.Body(t, items)}
	x.Body.Sort()
	copy(x.Offset[:], gen.Bytes(t, "offset", 32))
	x.Offset[0] &^= 1
	if !valid {
		x.Offset[0] |= 1
	}
	return x
}

// wireAddr is an address that the node would take, seldom one that it wouldn't.
func wireAddr(t *rapid.T) ref.Addr {
	var a ref.Addr
	switch rapid.IntRange(0, 7).Draw(t, "address kind") {
	case 0: // any bytes
		n := rapid.SampledFrom([]int{4, 16}).Draw(t, "size")
		a = ref.Addr{IP: gen.Bytes(t, "ip", n), Port: rapid.Uint16().Draw(t, "port")}
	case 1: // multicast
		if rapid.Bool().Draw(t, "v6") {
			a.IP = append([]byte{0xff}, gen.Bytes(t, "ip", 15)...)
		} else {
			a.IP = append([]byte{byte(rapid.IntRange(223, 240).Draw(t, "first"))}, gen.Bytes(t, "ip", 3)...)
		}
		a.Port = rapid.Uint16().Draw(t, "port")
	case 2:
		a = ref.Addr{IP: []byte{10, 0, 0, byte(rapid.IntRange(0, 9).Draw(t, "last"))}, Port: uint16(rapid.IntRange(0, 1).Draw(t, "port"))}
	case 3:
		a = ref.Addr{IP: append([]byte{0x20, 1, 13: 0}, byte(rapid.IntRange(0, 255).Draw(t, "g")), byte(rapid.IntRange(0, 9).Draw(t, "last"))), Port: 3414}
	default:
		a = ref.Addr{IP: []byte{10, 0, byte(rapid.IntRange(0, 255).Draw(t, "third")), byte(rapid.IntRange(0, 255).Draw(t, "last"))}, Port: uint16(rapid.IntRange(1, 65535).Draw(t, "port"))}
	}
	return a.Unmap()
}

// text form, as the table has it
func host(a ref.Addr) string { return (&net.TCPAddr{IP: a.IP, Port: int(a.Port)}).String() }

// tableTakes tells whether the table takes an address.
func tableTakes(a ref.Addr) bool {
	multicast := len(a.IP) == 4 && a.IP[0]&0xf0 == 0xe0 || len(a.IP) == 16 && a.IP[0] == 0xff
	return !multicast && a.Port != 0
}

// expect is what the node has to send: a frame, or addresses in any order.
type expect struct {
	typ   uint8
	body  []byte
	addrs []string
	count int // with more than the limit: any so many of addrs
}

func parseAddrs(body []byte) (out []string, ok bool) {
	r := &ref.Reader{B: body}
	n := int(r.U32())
	for i := 0; i < n && !r.Bad; i++ {
		out = append(out, host(ref.ParseAddr(r)))
	}
	return out, !r.Bad && len(r.B) == 0
}

func (e expect) String() string {
	if e.typ == ref.TAddrs {
		return fmt.Sprintf("%d of the addresses %v", e.count, e.addrs)
	}
	return fmt.Sprintf("message %d %s", e.typ, brief(e.body))
}

func (e expect) matches(f frame) bool {
	if e.typ != f.typ {
		return false
	}
	if e.typ != ref.TAddrs {
		return bytes.Equal(e.body, f.body)
	}
	got, ok := parseAddrs(f.body)
	if !ok || len(got) != e.count {
		return false
	}
	seen := map[string]bool{}
	known := map[string]bool{}
	for _, a := range e.addrs {
		known[a] = true
	}
	for _, a := range got {
		if seen[a] || !known[a] {
			return false
		}
		seen[a] = true
	}
	return true
}

// world is what the model knows about a conversation.
type world struct {
	m          *model
	addr       string
	caps       uint32
	table      map[string]bool
	td, height uint64 // of the peer
	mempool    bool
	dials      bool // the node connects to what is in its table
	answers    map[string][]ref.Header
	blocks     []ref.Block

	out   []byte   // to be sent
	sent  []expect // by the node
	calls []string // of the chain and the mempool
}

func (w *world) addrs(caps uint32) expect {
	e := expect{typ: ref.TAddrs}
	if caps == 0 {
		for a := range w.table {
			e.addrs = append(e.addrs, a)
		}
	} else if w.caps&caps == caps {
		e.addrs = []string{w.addr}
	}
	sort.Strings(e.addrs)
	e.count = min(len(e.addrs), ref.MaxAddrs)
	return e
}

// step draws a message and what it leads to.
func (w *world) step(c *kit.Case) string {
	t := c.T
	put := func(typ uint8, b []byte) { w.out = append(w.out, ref.Frame(typ, b)...) }
	kind := rapid.SampledFrom([]string{"ping", "pong", "get addrs", "addrs", "get headers", "get block", "header", "headers", "block", "tx", "compact", "get compact"}).Draw(t, "message")
	c.Class("%s", kind)
	switch kind {
	case "ping", "pong":
		w.td, w.height = rapid.Uint64().Draw(t, "td"), rapid.Uint64().Draw(t, "height")
		if kind == "pong" {
			put(ref.TPong, ref.Status(w.td, w.height))
			break
		}
		put(ref.TPing, ref.Status(w.td, w.height))
		w.sent = append(w.sent, expect{typ: ref.TPong, body: ref.Status(w.m.td, w.m.height)})
	case "get addrs":
		caps := rapid.OneOf(rapid.Just(uint32(0)), rapid.Uint32Range(0, 8), rapid.Uint32()).Draw(t, "caps")
		put(ref.TGetAddrs, ref.U32(caps))
		w.sent = append(w.sent, w.addrs(caps))
		kind += fmt.Sprint(" ", caps)
	case "addrs":
		var l []ref.Addr
		n := small(t, "addresses", 8)
		if rapid.IntRange(0, 9).Draw(t, "many") == 0 {
			first := rapid.IntRange(0, 255).Draw(t, "first")
			for i := 0; i < ref.MaxAddrs; i++ {
				l = append(l, ref.Addr{IP: []byte{11, 0, byte(first), byte(i)}, Port: 3414})
			}
			n = 0
		}
		for ; n > 0; n-- {
			l = append(l, wireAddr(t))
		}
		if w.dials { // only what it doesn't take
			kept := l[:0]
			for _, a := range l {
				if !tableTakes(a) {
					kept = append(kept, a)
				}
			}
			l = kept
		}
		put(ref.TAddrs, ref.Addrs(l))
		for _, a := range l {
			if tableTakes(a) {
				w.table[host(a)] = true
			}
		}
		kind += fmt.Sprint(" ", len(l))
	case "get headers":
		var loc [][32]byte
		for n := rapid.OneOf(rapid.IntRange(0, 3), rapid.Just(ref.MaxLocator)).Draw(t, "hashes"); n > 0; n-- {
			var h [32]byte
			copy(h[:], gen.Bytes(t, "hash", 32))
			loc = append(loc, h)
		}
		var flat []byte
		for i := range loc {
			flat = append(flat, loc[i][:]...)
		}
		if _, ok := w.answers[string(flat)]; !ok {
			n := rapid.OneOf(rapid.IntRange(0, 3), rapid.SampledFrom([]int{ref.MaxHeaders - 1, ref.MaxHeaders})).Draw(t, "answer")
			var l []ref.Header
			for i := 0; i < n; i++ {
				if i < 3 {
					l = append(l, smallHeader(t, rapid.Uint64().Draw(t, "nonce")))
				} else {
					h := l[0]
					h.Height += uint64(i)
					l = append(l, h)
				}
			}
			w.m.mu.Lock()
			w.answers[string(flat)] = l
			w.m.mu.Unlock()
		}
		put(ref.TGetHeaders, ref.Locator(loc))
		w.calls = append(w.calls, "locator "+string(flat))
		w.sent = append(w.sent, expect{typ: ref.THeaders, body: ref.Headers(w.answers[string(flat)])})
		kind += fmt.Sprintf(" %d hashes, %d headers", len(loc), len(w.answers[string(flat)]))
	case "get block":
		var h [32]byte
		if len(w.blocks) > 0 && rapid.Bool().Draw(t, "known") {
			b := w.blocks[rapid.IntRange(0, len(w.blocks)-1).Draw(t, "which")]
			h = b.Header.Hash()
			w.sent = append(w.sent, expect{typ: ref.TBlock, body: b.Bytes()})
			kind += " known"
		} else {
			copy(h[:], gen.Bytes(t, "hash", 32))
		}
		put(ref.TGetBlock, h[:])
		w.calls = append(w.calls, "get block "+string(h[:]))
	case "header":
		// what the chain says about one is only logged
		h := smallHeader(t, rapid.Uint64().Draw(t, "nonce"))
		put(ref.THeader, h.Bytes())
		w.calls = append(w.calls, "headers "+string(ref.Headers([]ref.Header{h})))
	case "headers":
		var l []ref.Header
		for n := small(t, "headers", 6); n > 0; n-- {
			l = append(l, smallHeader(t, rapid.Uint64().Draw(t, "nonce")&^1))
		}
		put(ref.THeaders, ref.Headers(l))
		w.calls = append(w.calls, "headers "+string(ref.Headers(l)))
		kind += fmt.Sprint(" ", len(l))
	case "block":
		b := block(t, rapid.Uint64().Draw(t, "nonce")&^1, 2)
		put(ref.TBlock, b.Bytes())
		w.calls = append(w.calls, "block "+string(b.Bytes()))
		if w.td < b.Header.TD || w.height < b.Header.Height {
			w.td, w.height = b.Header.TD, b.Header.Height
		}
	case "tx":
		x := tx(t, true, 2)
		put(ref.TTx, x.Bytes())
		if w.mempool {
			w.calls = append(w.calls, "tx "+string(x.Bytes()))
		}
	case "compact":
		x := ref.Compact{Header: smallHeader(t, rapid.Uint64().Draw(t, "nonce"))}
		for n := small(t, "ids", 4); n > 0; n-- {
			var id [6]byte
			copy(id[:], gen.Bytes(t, "id", 6))
			x.IDs = append(x.IDs, id)
		}
		put(ref.TCompact, x.Bytes())
	case "get compact":
		put(12, gen.Bytes(t, "hash", 32))
	}
	return kind
}

// compare waits until the node has sent what it must, and then tells whether
// that was all.
func (w *world) compare(c *kit.Case, what string, l *link, skip []frame) {
	log := l.log()
	var got []frame
	left := append([]frame{}, skip...)
	for _, f := range log {
		skipped := false
		for i, s := range left {
			if s.typ == f.typ && bytes.Equal(s.body, f.body) {
				left = append(left[:i], left[i+1:]...)
				skipped = true
				break
			}
		}
		if !skipped {
			got = append(got, f)
		}
	}
	if len(left) > 0 {
		c.Fatalf("%s: the node didn't send message %d %x", what, left[0].typ, left[0].body)
	}
	for i, e := range w.sent {
		if i >= len(got) {
			c.Fatalf("%s: the node sent %d messages, the next should be %v", what, len(got), e)
		}
		if !e.matches(got[i]) {
			c.Fatalf("%s: message %d of the node is %d %s, and should be %v", what, i, got[i].typ, brief(got[i].body), e)
		}
	}
	if len(got) > len(w.sent) {
		f := got[len(w.sent)]
		c.Fatalf("%s: the node sent too much: %d %s", what, f.typ, brief(f.body))
	}
	w.sameCalls(c, what, false)
}

// sameCalls compares what reached the chain and the mempool.
func (w *world) sameCalls(c *kit.Case, what string, anyOrder bool) {
	calls, want := w.m.log(), w.calls
	if anyOrder {
		want = append([]string{}, want...)
		sort.Strings(calls)
		sort.Strings(want)
	}
	for i := 0; i < len(calls) || i < len(want); i++ {
		if i >= len(calls) || i >= len(want) || calls[i] != want[i] {
			show := func(l []string) string {
				if i >= len(l) {
					return "missing"
				}
				k, b, _ := strings.Cut(l[i], " ")
				return k + " " + brief([]byte(b))
			}
			c.Fatalf("%s: what reached the chain and the mempool, number %d: %s, and should be %s", what, i, show(calls), show(want))
		}
	}
}

func newWorld(c *kit.Case, r *remote) (*world, *node) {
	m := newModel()
	w := &world{m: m, addr: r.addr, table: map[string]bool{r.addr: true}, answers: map[string][]ref.Header{}, mempool: rapid.Bool().Draw(c.T, "mempool")}
	// called with the model's lock held
	m.answer = func(loc [][]byte) []ref.Header { return w.answers[string(bytes.Join(loc, nil))] }
	for n := rapid.IntRange(0, 2).Draw(c.T, "blocks"); n > 0; n-- {
		b := block(c.T, rapid.Uint64().Draw(c.T, "nonce"), 2)
		h := b.Header.Hash()
		if m.blocks[string(h[:])] != nil {
			continue
		}
		w.blocks = append(w.blocks, b)
		m.blocks[string(h[:])] = conv.Block(b)
	}
	return w, newNode(m, w.mempool, r.addr)
}

// TestC23: what a node does about messages.
func TestC23(t *testing.T) {
	p := kit.New(t, "C23", "a conversation of at least two messages",
		"the chain and the mempool below the node are models", "what must happen may take 25 seconds")

	rounds := func(c *kit.Case, w *world, n *node, l *link, skip []frame) {
		total := 0
		for r := rapid.IntRange(1, 3).Draw(c.T, "rounds"); r > 0; r-- {
			n.set(rapid.Uint64().Draw(c.T, "chain td"), chainHeight(c.T))
			w.out = nil
			var kinds []string
			for k := rapid.IntRange(1, 8).Draw(c.T, "messages"); k > 0; k-- {
				kinds = append(kinds, w.step(c))
				total++
			}
			pieces := plan(c, len(w.out))
			c.Note("messages: %s, in %d pieces", strings.Join(kinds, ", "), len(pieces)+1)
			send(l, w.out, pieces)
			// and one to tell that they were dealt with
			w.td, w.height = rapid.Uint64().Draw(c.T, "td"), rapid.Uint64().Draw(c.T, "height")
			last := ref.Status(n.td, n.height)
			w.sent = append(w.sent, expect{typ: ref.TPong, body: last})
			if _, err := l.Write(ref.Frame(ref.TPing, ref.Status(w.td, w.height))); err != nil {
				c.Fatalf("the connection is gone: %v", err)
			}
			want := len(w.sent) + len(skip)
			if !eventually(func() bool { return len(l.log()) >= want || l.isClosed() }) || l.isClosed() {
				noFatal(c)
				c.Fatalf("the node sent %d messages and should send %d; closed: %v", len(l.log()), want, l.isClosed())
			}
			w.compare(c, "after "+kinds[len(kinds)-1], l, skip)
			if td, height, ok := n.status(w.addr); !ok || td != w.td || height != w.height {
				c.Fatalf("the node thinks the peer is at %d, %d, and it is at %d, %d", td, height, w.td, w.height)
			}
			for a := range w.table {
				if n.Pool.PeerInfo(a) == nil {
					c.Fatalf("%s isn't in the table", a)
				}
			}
			noFatal(c)
		}
		if total > 1 {
			c.NonTrivial()
		}
	}

	p.Part("direct", kit.Budget{Quick: 1500, Thorough: 60000, Shards: 24, Journal: true}, func(c *kit.Case) {
		r := newRemote(nil)
		defer r.close()
		w, n := newWorld(c, r)
		var peer *p2p.Peer
		var err error
		c.Must("NewPeer", func() { peer, err = p2p.NewPeer(n.Syncer, r.addr) })
		if err != nil {
			c.Fatalf("a good handshake fails: %v", err)
		}
		peer.Start()
		defer peer.Close()
		if !eventually(func() bool { return r.live() != nil }) {
			c.Fatalf("no connection")
		}
		rounds(c, w, n, r.live(), nil)
		peer.Close()
		c.Must("WaitForDisconnect", peer.WaitForDisconnect)
	})

	// status, too: what a block tells about its sender is seen without a ping
	p.Part("status", kit.Budget{Quick: 600, Thorough: 20000, Shards: 24, Journal: true}, func(c *kit.Case) {
		r := newRemote(nil)
		defer r.close()
		w, n := newWorld(c, r)
		n.set(5, chainHeight(c.T))
		var peer *p2p.Peer
		var err error
		c.Must("NewPeer", func() { peer, err = p2p.NewPeer(n.Syncer, r.addr) })
		if err != nil {
			c.Fatalf("a good handshake fails: %v", err)
		}
		peer.Start()
		defer peer.Close()
		if !eventually(func() bool { return r.live() != nil }) {
			c.Fatalf("no connection")
		}
		l := r.live()
		level := rapid.OneOf(rapid.Uint64Range(0, 1<<40), rapid.Uint64()).Draw(c.T, "td")
		height := rapid.OneOf(rapid.Uint64Range(0, 1<<30), rapid.Uint64()).Draw(c.T, "height")
		near := func(label string, x uint64) uint64 {
			return min(max(2, x), 1<<64-3) - 1 + uint64(rapid.IntRange(0, 2).Draw(c.T, label))
		}
		l.Write(ref.Frame(ref.TPing, ref.Status(level, height)))
		c.Note("the peer is at %d, %d", level, height)
		for k := rapid.IntRange(1, 4).Draw(c.T, "more"); k > 0; k-- {
			kind := rapid.SampledFrom([]string{"ping", "pong", "block", "block"}).Draw(c.T, "kind")
			td, h := near("message's td", level), near("message's height", height)
			if rapid.IntRange(0, 3).Draw(c.T, "far") == 0 {
				td, h = rapid.Uint64().Draw(c.T, "far td"), rapid.Uint64().Draw(c.T, "far height")
			}
			c.Note("a %s says %d, %d", kind, td, h)
			c.Class("%s last: %v", kind, k == 1)
			switch kind {
			case "ping":
				l.Write(ref.Frame(ref.TPing, ref.Status(td, h)))
				level, height = td, h
			case "pong":
				l.Write(ref.Frame(ref.TPong, ref.Status(td, h)))
				level, height = td, h
			default:
				b := block(c.T, 2, 0)
				b.Header.TD, b.Header.Height = td, h
				l.Write(ref.Frame(ref.TBlock, b.Bytes()))
				if level < td || height < h {
					level, height = td, h
				}
			}
		}
		c.NonTrivial()
		// a request for addresses is answered after that
		l.Write(ref.Frame(ref.TGetAddrs, ref.U32(0)))
		if !eventually(func() bool { return l.count(ref.TAddrs) > 0 || l.isClosed() }) || l.isClosed() {
			c.Fatalf("a request for addresses isn't answered")
		}
		if td, h, ok := n.status(w.addr); !ok || td != level || h != height {
			c.Fatalf("the node thinks the peer is at %d, %d, and it is at %d, %d", td, h, level, height)
		}
		noFatal(c)
	})

	// as the pool does it: with a ping and a request for peers at first
	p.Part("pool", kit.Budget{Quick: 192, Thorough: 4000, Shards: 96, Journal: true, Shrink: 5 * time.Second}, func(c *kit.Case) {
		caps := rapid.OneOf(rapid.Just(uint32(7)), rapid.Uint32Range(0, 8), rapid.Uint32()).Draw(c.T, "peer's caps")
		td := rapid.Uint64().Draw(c.T, "shake's td")
		c.Note("caps %d, td %d in the shake", caps, td)
		r := newRemote(func(l *link) error { return greetAs(l, td, caps) })
		defer r.close()
		w, n := newWorld(c, r)
		w.caps, w.dials = caps, true
		ctd, cheight := rapid.Uint64().Draw(c.T, "chain td"), rapid.Uint64().Draw(c.T, "chain height")
		n.set(ctd, cheight)
		n.start()
		defer n.stop()
		hello := []frame{{typ: ref.TPing, body: ref.Status(ctd, cheight)}, {typ: ref.TGetAddrs, body: ref.U32(7)}}
		if !eventually(func() bool { l := r.live(); return l != nil && len(l.log()) >= 2 }) {
			c.Fatalf("no ping and request for peers")
		}
		l := r.live()
		w.compare(c, "at first", l, hello)
		if t, h, ok := n.status(r.addr); !ok || t != td || h != 0 {
			c.Fatalf("the node thinks the peer is at %d, %d", t, h)
		}
		rounds(c, w, n, l, hello)
		n.stop()
		if !n.stopped() {
			c.Fatalf("Run doesn't return")
		}
	})

	// what the node is asked to send
	p.Part("requests", kit.Budget{Quick: 800, Thorough: 40000, Shards: 24, Journal: true}, func(c *kit.Case) {
		r := newRemote(nil)
		defer r.close()
		n := newNode(newModel(), false, r.addr)
		var peer *p2p.Peer
		var err error
		c.Must("NewPeer", func() { peer, err = p2p.NewPeer(n.Syncer, r.addr) })
		if err != nil {
			c.Fatalf("a good handshake fails: %v", err)
		}
		peer.Start()
		defer peer.Close()
		var want []expect
		for k := rapid.IntRange(1, 8).Draw(c.T, "requests"); k > 0; k-- {
			kind := rapid.SampledFrom([]string{"ping", "block", "get block", "get addrs", "get headers", "tx"}).Draw(c.T, "kind")
			c.Note("%s", kind)
			c.Class("%s", kind)
			var f func()
			switch kind {
			case "ping":
				td, height := rapid.Uint64().Draw(c.T, "td"), rapid.Uint64().Draw(c.T, "height")
				n.set(td, height)
				want = append(want, expect{typ: ref.TPing, body: ref.Status(td, height)})
				f = peer.SendPing
			case "block":
				b := block(c.T, 1, 4)
				want = append(want, expect{typ: ref.TBlock, body: b.Bytes()})
				f = func() { peer.SendBlock(conv.Block(b)) }
			case "get block":
				h := gen.Bytes(c.T, "hash", 32)
				want = append(want, expect{typ: ref.TGetBlock, body: h})
				f = func() { peer.SendBlockRequest(h) }
			case "get addrs":
				caps := rapid.Uint32().Draw(c.T, "caps")
				want = append(want, expect{typ: ref.TGetAddrs, body: ref.U32(caps)})
				f = func() { peer.SendPeerRequest(consensus.Capabilities(caps)) }
			case "get headers":
				var loc [][32]byte
				var l consensus.Locator
				for n := rapid.IntRange(0, ref.MaxLocator).Draw(c.T, "hashes"); n > 0; n-- {
					var h [32]byte
					copy(h[:], gen.Bytes(c.T, "hash", 32))
					loc = append(loc, h)
					l.Hashes = append(l.Hashes, append([]byte{}, h[:]...))
				}
				want = append(want, expect{typ: ref.TGetHeaders, body: ref.Locator(loc)})
				f = func() { peer.SendHeaderRequest(l) }
			case "tx":
				x := tx(c.T, true, 4)
				want = append(want, expect{typ: ref.TTx, body: x.Bytes()})
				f = func() { peer.SendTransaction(*conv.Tx(x)) }
			}
			c.Must(kind, f)
		}
		if len(want) > 1 {
			c.NonTrivial()
		}
		if !eventually(func() bool { return r.live() != nil && len(r.live().log()) >= len(want) }) {
			c.Fatalf("not everything was sent")
		}
		l := r.live()
		if !l.barrier(1, 2) {
			c.Fatalf("a ping isn't answered")
		}
		log := l.log()
		for i, e := range want {
			if !e.matches(log[i]) {
				c.Fatalf("message %d is %d %s, and should be %v", i, log[i].typ, brief(log[i].body), e)
			}
		}
		if len(log) != len(want)+1 {
			c.Fatalf("%d messages instead of %d", len(log), len(want)+1)
		}
		noFatal(c)
	})
}
