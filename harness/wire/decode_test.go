package wire

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"net"
	"runtime"
	"strings"
	"testing"

	"github.com/dblokhin/gringo/consensus"
	"github.com/dblokhin/gringo/p2p"
	"pgregory.net/rapid"

	"verif/harness/conv"
	"verif/harness/data"
	"verif/harness/gen"
	"verif/harness/kit"
	"verif/harness/ref"
)

func diff(got, want []byte) string {
	i := 0
	for i < len(got) && i < len(want) && got[i] == want[i] {
		i++
	}
	lo := max(0, i-8)
	return fmt.Sprintf("%d bytes, want %d; first difference at %d: got ..%x.., want ..%x..", len(got), len(want), i,
		got[lo:min(len(got), i+24)], want[lo:min(len(want), i+24)])
}

func short(x target) bool {
	return x.Name == "ping" || x.Name == "pong" || x.Name == "get addrs" || x.Name == "get block"
}

// TestC02: the layout of the p2p messages, through their fields.
func TestC02(t *testing.T) {
	p := kit.New(t, "C02", "a message with a non-zero field or a list entry")

	enc := func(c *kit.Case, m p2p.Message, typ uint8, want []byte) {
		var got []byte
		var gt uint8
		c.Must("encoding", func() { got, gt = m.Bytes(), m.Type() })
		if gt != typ {
			c.Fatalf("message type %d, want %d", gt, typ)
		}
		if !bytes.Equal(got, want) {
			c.Fatalf("encoded wrongly: %s", diff(got, want))
		}
	}
	dec := func(c *kit.Case, m p2p.Message, b []byte) {
		r := bytes.NewReader(append(append([]byte{}, b...), 0xa5, 0x5a))
		var err error
		c.Must("decoding", func() { err = m.Read(r) })
		if err != nil || r.Len() != 2 {
			c.Fatalf("decoding %x: %v, %d bytes left over", b, err, r.Len()-2)
		}
	}

	p.Part("numbers", kit.Budget{Quick: 20000, Thorough: 1000000, Shards: 4}, func(c *kit.Case) {
		td, h := rapid.Uint64().Draw(c.T, "td"), rapid.Uint64().Draw(c.T, "height")
		caps := rapid.Uint32().Draw(c.T, "caps")
		size := upTo(c.T, "len", 300)
		if rapid.IntRange(0, 49).Draw(c.T, "long") == 0 {
			size = rapid.OneOf(rapid.IntRange(300, ref.MaxString), rapid.IntRange(ref.MaxString-2, ref.MaxString)).Draw(c.T, "long len")
		}
		code, msg := rapid.Uint32().Draw(c.T, "code"), string(gen.Bytes(c.T, "text", size))
		hash := gen.Bytes(c.T, "hash", 32)
		c.Note("total difficulty %d, height %d, capabilities %x, code %d, text of %d bytes %q, hash %x", td, h, caps, code, size, msg[:min(size, 300)], hash)
		if td|h != 0 {
			c.NonTrivial()
		}
		ping := p2p.Ping{TotalDifficulty: consensus.Difficulty(td), Height: h}
		enc(c, &ping, ref.TPing, ref.Status(td, h))
		pong := p2p.Pong{Ping: ping}
		enc(c, &pong, ref.TPong, ref.Status(td, h))
		var ping2 p2p.Ping
		dec(c, &ping2, ref.Status(td, h))
		var pong2 p2p.Pong
		dec(c, &pong2, ref.Status(td, h))
		if ping2 != ping || pong2 != pong {
			c.Fatalf("decoded as %v, %v", ping2, pong2)
		}
		ga := p2p.GetPeerAddrs{Capabilities: consensus.Capabilities(caps)}
		enc(c, &ga, ref.TGetAddrs, ref.U32(caps))
		var ga2 p2p.GetPeerAddrs
		dec(c, &ga2, ref.U32(caps))
		if ga2 != ga {
			c.Fatalf("decoded as %v", ga2)
		}
		pe := p2p.PeerError{Code: code, Message: msg}
		enc(c, &pe, ref.TError, ref.PeerError(code, msg))
		var pe2 p2p.PeerError
		dec(c, &pe2, ref.PeerError(code, msg))
		if pe2 != pe {
			c.Fatalf("decoded as %.300v", pe2)
		}
		gb := p2p.GetBlock{Hash: hash}
		enc(c, &gb, ref.TGetBlock, hash)
		var gb2 p2p.GetBlock
		dec(c, &gb2, hash)
		if !bytes.Equal(gb2.Hash, hash) {
			c.Fatalf("decoded as %v", gb2)
		}
	})

	p.Part("headers", kit.Budget{Quick: 600, Thorough: 20000, Shards: 4}, func(c *kit.Case) {
		var l []ref.Header
		var g []consensus.BlockHeader
		n := upTo(c.T, "headers", 5)
		big := rapid.IntRange(0, 29).Draw(c.T, "many") == 0
		if big {
			n = ref.MaxHeaders
		}
		for i := 0; i < n; i++ {
			h := ref.Header{}
			if big && i > 0 {
				h = l[0]
				h.Nonce += uint64(i)
			} else {
				h = gen.Header(c.T)
			}
			l, g = append(l, h), append(g, conv.Header(h))
		}
		c.Note("%d headers %+v", n, l[:min(2, n)])
		if n > 0 {
			c.NonTrivial()
			one := p2p.BlockHeader{Header: conv.Header(l[0])}
			enc(c, &one, ref.THeader, l[0].Bytes())
			var one2 p2p.BlockHeader
			dec(c, &one2, l[0].Bytes())
			if b := conv.BackHeader(&one2.Header); !bytes.Equal(b.Bytes(), l[0].Bytes()) {
				c.Fatalf("decoded as %v", one2)
			}
		}
		c.Class("%d headers", n)
		m := p2p.BlockHeaders{Headers: g}
		enc(c, &m, ref.THeaders, ref.Headers(l))
		var m2 p2p.BlockHeaders
		dec(c, &m2, ref.Headers(l))
		var back []ref.Header
		for i := range m2.Headers {
			back = append(back, conv.BackHeader(&m2.Headers[i]))
		}
		if !bytes.Equal(ref.Headers(back), ref.Headers(l)) {
			c.Fatalf("decoded as %d headers %v", len(back), back)
		}

		var loc [][32]byte
		var gl consensus.Locator
		for i := upTo(c.T, "locator", ref.MaxLocator); i > 0; i-- {
			var h [32]byte
			copy(h[:], gen.Bytes(c.T, "hash", 32))
			loc, gl.Hashes = append(loc, h), append(gl.Hashes, append(consensus.Hash{}, h[:]...))
		}
		q := p2p.GetBlockHeaders{Locator: gl}
		enc(c, &q, ref.TGetHeaders, ref.Locator(loc))
		var q2 p2p.GetBlockHeaders
		dec(c, &q2, ref.Locator(loc))
		if len(q2.Locator.Hashes) != len(loc) {
			c.Fatalf("locator decoded as %v", q2)
		}
		for i, h := range q2.Locator.Hashes {
			if !bytes.Equal(h, loc[i][:]) {
				c.Fatalf("locator decoded as %v", q2)
			}
		}
	})

	// The addresses can be seen through a peers table only.
	p.Part("addresses", kit.Budget{Quick: 2000, Thorough: 50000, Shards: 4}, func(c *kit.Case) {
		var l []ref.Addr
		for n := upTo(c.T, "addrs", rapid.SampledFrom([]int{3, 12, ref.MaxAddrs}).Draw(c.T, "size")); n > 0; n-- {
			l = append(l, addr(c.T))
		}
		c.Note("addresses %v", l)
		if len(l) > 0 {
			c.NonTrivial()
		}
		var m p2p.PeerAddrs
		dec(c, &m, ref.Addrs(l))
		enc(c, &m, ref.TAddrs, ref.Addrs(l))

		// and with a table: what is added is what is sent
		s := p2p.NewSyncer(nil, nil, nil)
		want := map[string]bool{}
		for _, a := range l {
			tcp := net.TCPAddr{IP: a.IP, Port: int(a.Port)}
			if tcp.IP.IsMulticast() || a.Port == 0 {
				continue
			}
			s.Pool.Add(tcp.String())
			want[string(a.Bytes())] = true
		}
		r := &ref.Reader{B: s.Pool.Peers(0).Bytes()}
		n := int(r.U32())
		got := map[string]bool{}
		for i := 0; i < n; i++ {
			a := ref.ParseAddr(r)
			got[string(a.Bytes())] = true
			if !want[string(a.Bytes())] {
				c.Fatalf("sent address %v port %d, which nobody added", net.IP(a.IP), a.Port)
			}
		}
		if r.Bad || len(r.B) != 0 || len(got) != len(want) || n != len(want) {
			c.Fatalf("%d addresses sent as %d, %d of them distinct", len(want), n, len(got))
		}
	})
}

// TestC03: whatever is accepted encodes to the very bytes that were read.
func TestC03(t *testing.T) {
	p := kit.New(t, "C03", "a corrupted encoding of more than 16 bytes",
		"three redundancies of the format are not judged: unused bits of the range proofs' sign vectors, the order of the lists of blocks and compact blocks, and IPv4 addresses sent as IPv6")
	for _, x := range targets {
		x := x
		b := kit.Budget{Quick: 9000, Thorough: 400000, Shards: 8}
		if short(x) {
			b.Quick, b.Thorough = 500, 10000
		}
		if x.Name == "headers" || x.Name == "addrs" || x.Name == "error" {
			b.Quick, b.Thorough = 4000, 150000
		}
		p.Part(x.Name, b, func(c *kit.Case) {
			b, marks := x.Gen(c.T)
			what := " nothing"
			if rapid.IntRange(0, 9).Draw(c.T, "corrupt") > 0 {
				b, what = corrupt(c.T, b, marks)
				if len(b) > 16 {
					c.NonTrivial(b)
				}
			}
			c.Note("%s, corrupted:%s\n%s", x.Name, what, brief(b))
			judge(c, x, b)
		})
	}
	p.Part("real", kit.Budget{Quick: 400, Thorough: 20000, Shards: 8}, func(c *kit.Case) {
		blk := data.Testnet4Block()
		x, b := targets[2], blk.BytesAsGiven()
		if rapid.Bool().Draw(c.T, "tx") {
			x, b = targets[3], data.TxBytes()
		}
		b, what := corrupt(c.T, b, nil)
		c.Note("real %s, corrupted:%s\n%s", x.Name, what, brief(b))
		c.NonTrivial(b)
		judge(c, x, b)
	})
	p.Part("resized", kit.Budget{Quick: 4000, Thorough: 100000, Shards: 8}, func(c *kit.Case) {
		// proofs of work of all sizes, with as many bytes as they need
		t := c.T
		h := gen.Header(t)
		bits := uint8(rapid.OneOf(rapid.IntRange(33, 64), rapid.IntRange(28, 36), rapid.IntRange(0, 255)).Draw(t, "bits"))
		var pow []byte
		what := "with small edges"
		if rapid.Bool().Draw(t, "small") {
			edges := make([]uint32, 42)
			for i := range edges {
				edges[i] = h.Edges[i]
				if bits < 32 {
					edges[i] &= 1<<bits - 1
				}
			}
			pow = ref.PackEdges(edges, bits)
		} else {
			what = "with any edges"
			pow = gen.Bytes(t, "pow", (42*int(bits)+7)/8)
			if over := 42 * int(bits) % 8; over > 0 {
				pow[len(pow)-1] &= 1<<over - 1
			}
		}
		head := cat(h.PrePow(), []byte{bits}, pow)
		i := rapid.SampledFrom([]int{0, 1, 2, 4}).Draw(t, "target")
		x, b := targets[i], head
		switch i {
		case 1: // headers, with others before and after
			n, m := rapid.IntRange(0, 2).Draw(t, "before"), rapid.IntRange(0, 2).Draw(t, "after")
			b = be(2, uint64(n+1+m))
			for k := 0; k < n; k++ {
				b = append(b, h.Bytes()...)
			}
			b = append(b, head...)
			for k := 0; k < m; k++ {
				b = append(b, h.Bytes()...)
			}
		case 2: // block
			b = cat(head, make([]byte, 24))
		case 4: // compact block
			b = cat(head, make([]byte, 10))
		}
		c.Note("%s, %d bits per edge, %s\n%s", x.Name, bits, what, brief(b))
		if bits == 0 || bits > 32 {
			c.NonTrivial(b)
		}
		judge(c, x, b)
	})
}

// judge compares what gringo makes of b with what the reference does.
func judge(c *kit.Case, x target, b []byte) {
	want, n, ok := x.Wire().Parse(b)
	r, left := reader(c.T, b)
	m := x.Mk()
	var err error
	c.Must("decoding", func() { err = m.Read(r) })
	switch {
	case err != nil && ok:
		c.Fatalf("a valid encoding is rejected: %v", err)
	case err == nil && !ok:
		c.Fatalf("an invalid encoding is accepted, as %x", x.Again(m))
	case err == nil:
		c.Class("accepted")
		if took := len(b) - left(); took != n {
			c.Fatalf("the encoding has %d bytes, %d were read", n, took)
		}
		var got []byte
		c.Must("encoding", func() { got = x.Again(m) })
		if !bytes.Equal(got, want) {
			c.Fatalf("it encodes to something else: %s", diff(got, want))
		}
	default:
		c.Class("rejected")
	}
}

var errBroken = errors.New("connection broken")

type broken struct{ r io.Reader }

func (b broken) Read(p []byte) (int, error) {
	n, err := b.r.Read(p)
	if err == io.EOF {
		err = errBroken
	}
	return n, err
}

// TestC04: nothing a peer sends hurts.
func TestC04(t *testing.T) {
	p := kit.New(t, "C04", "an input of more than 16 bytes that isn't a valid encoding, or the prefix of one",
		"memory is measured as bytes allocated by the process while one decoder runs alone")

	use := func(c *kit.Case, m p2p.Message) {
		// what the node goes on to do with a message
		c.Must("using the message", func() {
			_ = fmt.Sprint(m)
			m.Type()
			m.Bytes()
			if b, ok := m.(*consensus.Block); ok {
				b.Hash()
				b.Header.POW.ToDifficulty()
				b.Validate()
			}
			if b, ok := m.(*consensus.CompactBlock); ok {
				b.Hash()
			}
			if b, ok := m.(*p2p.BlockHeader); ok {
				b.Header.Hash()
				b.Header.Validate()
			}
		})
	}

	p.Part("random", kit.Budget{Quick: 40000, Thorough: 2000000, Shards: 8}, func(c *kit.Case) {
		x := rapid.SampledFrom(targets).Draw(c.T, "kind")
		var b []byte
		if rapid.Bool().Draw(c.T, "raw") {
			b = rapid.SliceOfN(rapid.Byte(), 0, 600).Draw(c.T, "bytes")
		} else {
			b = gen.Bytes(c.T, "bytes", upTo(c.T, "size", 3000))
		}
		c.Note("%s from %s", x.Name, brief(b))
		if len(b) > 16 {
			c.NonTrivial(b)
		}
		m := x.Mk()
		r, _ := reader(c.T, b)
		var err error
		c.Must("decoding", func() { err = m.Read(r) })
		if err == nil {
			use(c, m)
		}
	})

	p.Part("corrupted", kit.Budget{Quick: 30000, Thorough: 1500000, Shards: 8}, func(c *kit.Case) {
		x := rapid.SampledFrom(targets).Draw(c.T, "kind")
		b, marks := x.Gen(c.T)
		b, what := corrupt(c.T, b, marks)
		c.Note("%s, corrupted:%s\n%s", x.Name, what, brief(b))
		if len(b) > 16 {
			c.NonTrivial(b)
		}
		m := x.Mk()
		var err error
		c.Must("decoding", func() { err = m.Read(bytes.NewReader(b)) })
		if err == nil {
			c.Class("accepted")
			use(c, m)
		}
	})

	p.Part("truncated", kit.Budget{Quick: 12000, Thorough: 500000, Shards: 8}, func(c *kit.Case) {
		x := rapid.SampledFrom(targets).Draw(c.T, "kind")
		b, _ := x.Gen(c.T)
		if len(b) == 0 {
			return
		}
		n := rapid.OneOf(rapid.IntRange(0, len(b)-1), rapid.Just(len(b)-1)).Draw(c.T, "length")
		c.Note("%s, %d bytes of %s", x.Name, n, brief(b))
		c.NonTrivial()
		var r io.Reader = bytes.NewReader(b[:n])
		if rapid.Bool().Draw(c.T, "broken") {
			r = broken{r}
		}
		var err error
		c.Must("decoding", func() { err = x.Mk().Read(r) })
		if err == nil {
			c.Fatalf("accepted, although it ends after %d of %d bytes", n, len(b))
		}
	})

	// Memory goes with what was received, not with what was announced.
	p.Part("memory", kit.Budget{Quick: 6000, Thorough: 60000, Shards: 1}, func(c *kit.Case) {
		x := rapid.SampledFrom(targets).Draw(c.T, "kind")
		b, marks := x.Gen(c.T)
		what := ""
		if len(marks) > 0 {
			// announce a lot
			p := rapid.OneOf(rapid.SampledFrom(marks), rapid.Just(marks[len(marks)-1])).Draw(c.T, "mark")
			w := rapid.SampledFrom([]int{8, 8, 8, 4, 2, 1}).Draw(c.T, "width")
			v := rapid.OneOf(rapid.SampledFrom(interesting), rapid.SampledFrom([]uint64{512, 5000, 65535, 300000, 1000000})).Draw(c.T, "number")
			if p+w <= len(b) {
				copy(b[p:], be(w, v))
				what = fmt.Sprintf(" write %d as %d bytes at %d", v, w, p)
			}
			if rapid.Bool().Draw(c.T, "cut") {
				b = b[:min(len(b), p+w)]
			}
		} else {
			b, what = corrupt(c.T, b, marks)
		}
		c.Note("%s, corrupted:%s\n%s", x.Name, what, brief(b))
		if len(b) > 16 {
			c.NonTrivial(b)
		}
		m := x.Mk()
		var m0, m1 runtime.MemStats
		runtime.ReadMemStats(&m0)
		c.Must("decoding", func() { m.Read(bytes.NewReader(b)) })
		runtime.ReadMemStats(&m1)
		used, limit := m1.TotalAlloc-m0.TotalAlloc, uint64(1<<20+200*len(b))
		if used > limit {
			c.Fatalf("decoding %d bytes took %d bytes of memory", len(b), used)
		}
	})

	// Limits on counts hold even when the data is there.
	p.Part("limits", kit.Budget{Quick: 300, Thorough: 10000, Shards: 8}, func(c *kit.Case) {
		over := rapid.IntRange(-2, 40).Draw(c.T, "over")
		kind := rapid.SampledFrom([]string{"headers", "addrs", "get headers", "error"}).Draw(c.T, "kind")
		var b []byte
		var n int
		switch kind {
		case "headers":
			n = ref.MaxHeaders + over
			h := gen.Header(c.T)
			l := make([]ref.Header, n)
			for i := range l {
				l[i] = h
			}
			b = ref.Headers(l)
		case "addrs":
			n = ref.MaxAddrs + over
			l := make([]ref.Addr, n)
			for i := range l {
				l[i] = ref.Addr{IP: []byte{1, 2, 3, 4}, Port: uint16(i + 1)}
			}
			b = ref.Addrs(l)
		case "get headers":
			n = ref.MaxLocator + over
			b = ref.Locator(make([][32]byte, n))
		case "error":
			n = ref.MaxString + over
			b = ref.PeerError(1, string(gen.Expand(1, n)))
		}
		c.Note("%s: %d, %d over the limit", kind, n, over)
		c.NonTrivial()
		var x target
		for _, x = range targets {
			if x.Name == kind {
				break
			}
		}
		m := x.Mk()
		var err error
		c.Must("decoding", func() { err = m.Read(bytes.NewReader(b)) })
		if (err != nil) != (over > 0) {
			c.Fatalf("%d, %d over the limit: %v", n, over, err)
		}
	})

	// The limits of the lists of blocks and transactions, with data that
	// doesn't end: what announces too much is refused, not read.
	p.Part("endless", kit.Budget{Quick: 120, Thorough: 4000, Shards: 4}, func(c *kit.Case) {
		kind := rapid.SampledFrom([]string{"block inputs", "block outputs", "block kernels", "transaction inputs", "transaction outputs", "transaction kernels", "short ids"}).Draw(c.T, "kind")
		n := rapid.OneOf(rapid.Just(uint64(1000001)), rapid.Uint64Range(1000001, 1<<34), rapid.Uint64Range(1000001, 1<<63-1), rapid.Uint64()).Draw(c.T, "announced")
		n = max(n, 1000001)
		c.Note("%s: %d announced, endless data", kind, n)
		c.NonTrivial()
		var m p2p.Message
		var head, item []byte
		counts := make([]byte, 24)
		var body ref.Body
		switch {
		case strings.HasSuffix(kind, "inputs"):
			copy(counts, be(8, n))
			i := gen.Input(c.T)
			item = i.Bytes()
		case strings.HasSuffix(kind, "outputs"):
			copy(counts[8:], be(8, n))
			body = gen.ValidBody(c.T, 1, 1)
			item = body.Outputs[0].Bytes()
		case strings.HasSuffix(kind, "kernels"):
			copy(counts[16:], be(8, n))
			body = gen.ValidBody(c.T, 1, 1)
			item = body.Kernels[0].Bytes()
		}
		h := gen.Header(c.T)
		switch {
		case strings.HasPrefix(kind, "block"):
			m, head = new(consensus.Block), append(h.Bytes(), counts...)
		case strings.HasPrefix(kind, "transaction"):
			m, head = new(consensus.Transaction), append(make([]byte, 32), counts...)
		default:
			m, item = new(consensus.CompactBlock), gen.Bytes(c.T, "id", 6)
			cb := ref.Compact{Header: h}
			head = cb.Bytes()
			head = append(head[:len(head)-8], be(8, n)...)
		}
		r := &endless{head: head, item: item, max: 100 << 20}
		var err error
		c.Must("decoding", func() { err = m.Read(r) })
		if err == nil {
			c.Fatalf("accepted")
		}
		if r.n > len(head)+1<<20 {
			c.Fatalf("%d bytes read before it was refused", r.n)
		}
	})

	// Bodies of blocks whose proof of work is good reach all of the validation.
	p.Part("validated", kit.Budget{Quick: 150, Thorough: 6000, Shards: 8}, func(c *kit.Case) {
		x, ok := data.Find("chain1")
		if !ok {
			return
		}
		blk := ref.Block{Header: x.Header, Body: gen.ValidBody(c.T, 1, 1)}
		marks := bodyMarks(len(blk.Header.Bytes()), &blk.Body)
		b := blk.Bytes()
		h := len(blk.Header.Bytes())
		tail, what := corruptValues(c.T, b[h:], blk, marks, h)
		b = append(b[:h:h], tail...)
		c.Note("block with a good proof of work, corrupted:%s\n%s", what, brief(b))
		var y consensus.Block
		var err error
		c.Must("decoding", func() { err = y.Read(bytes.NewReader(b)) })
		if err == nil {
			c.NonTrivial(b)
			c.Must("validating", func() { y.Validate() })
		}
	})
}

// endless repeats an item after a head, up to a length.
type endless struct {
	head, item []byte
	n, max     int
}

func (r *endless) Read(p []byte) (int, error) {
	if r.n > r.max {
		return 0, io.ErrUnexpectedEOF
	}
	if r.n < len(r.head) {
		k := copy(p, r.head[r.n:])
		r.n += k
		return k, nil
	}
	k := copy(p, r.item[(r.n-len(r.head))%len(r.item):])
	r.n += k
	return k, nil
}

// corruptValues overwrites 32 bytes somewhere in an output or kernel with an
// extreme number.
func corruptValues(t *rapid.T, tail []byte, b ref.Block, marks []int, h int) ([]byte, string) {
	tail = append([]byte{}, tail...)
	start := 24 + 34*len(b.Inputs)
	what := ""
	p256 := func(hex string) []byte { x, _ := hexBytes(hex); return x }
	values := [][]byte{make([]byte, 32), append(make([]byte, 31), 1), bytes.Repeat([]byte{0xff}, 32),
		p256("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f"),
		p256("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141"),
		p256("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364140"),
		p256("79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798"),
		p256("50929b74c1a04954b78b4b6035e97a5e078a5a0f28ec96d547bfee9ace803ac0")}
	// offsets of the 32-byte numbers in an output and its proof
	var at []int
	o := start
	for range b.Outputs {
		at = append(at, o+2, o+42, o+42+32, o+42+64+1, o+42+65+32, o+42+65+64, o+42+65+96, o+42+193, o+42+225, o+42+257, o+42+289, o+42+321)
		for i := 0; i < 10; i++ {
			at = append(at, o+42+355+32*i)
		}
		o += 34 + 8 + 675
	}
	for range b.Kernels {
		at = append(at, o+18, o+50, o+82)
		o += 114
	}
	for n := rapid.IntRange(1, 3).Draw(t, "changes"); n > 0; n-- {
		p := rapid.SampledFrom(at).Draw(t, "at")
		v := rapid.IntRange(0, len(values)).Draw(t, "value")
		x := gen.Expand(uint64(p), 32)
		if v < len(values) {
			x = values[v]
		}
		if p+32 <= len(tail) {
			copy(tail[p:], x)
		}
		what += fmt.Sprintf(" %x at %d", x, p+h)
	}
	return tail, what
}
