// Package msgs generates valid and near-valid message bodies of every kind.
package msgs

import (
	"encoding/binary"
	"fmt"
	"io"
	"testing/iotest"

	"bytes"

	"github.com/dblokhin/gringo/consensus"
	"github.com/dblokhin/gringo/p2p"
	"pgregory.net/rapid"

	"verif/harness/gen"
	"verif/harness/ref"
)

// Target is a kind of message body.
type Target struct {
	Name string
	Mk   func() p2p.Message
	// Gen draws a valid encoding, and marks offsets worth corrupting.
	Gen func(t *rapid.T) (b []byte, marks []int)
	// Again encodes what was decoded, lists in their order
	Again func(m p2p.Message) []byte
}

func (x Target) Wire() ref.Wire {
	w, ok := ref.Wires[x.Name]
	if !ok {
		panic(x.Name)
	}
	return w
}

// plain is the message's own encoding.
func plain(m p2p.Message) []byte { return m.Bytes() }

func headerMarks(off int, h *ref.Header) []int {
	edge := off + len(h.PrePow())
	return []int{off, off + 2, off + 10, off + 18, edge, edge + 1, off + len(h.Bytes()) - 1}
}

func BodyMarks(off int, b *ref.Body) (m []int) {
	m = append(m, off, off+8, off+16, off+24)
	off += 24 + 34*len(b.Inputs)
	for i := range b.Outputs {
		m = append(m, off, off+1, off+34, off+41, off+42, off+42+64, off+42+354)
		off += len(b.Outputs[i].Bytes())
		m = append(m, off-1)
	}
	for range b.Kernels {
		m = append(m, off, off+17, off+50)
		off += 114
	}
	return
}

func Cat(parts ...[]byte) (out []byte) {
	for _, p := range parts {
		out = append(out, p...)
	}
	return
}

func BE(n int, v uint64) []byte {
	var b [8]byte
	binary.BigEndian.PutUint64(b[:], v)
	return b[8-n:]
}

func items(in consensus.InputList, out consensus.OutputList, ker consensus.TxKernelList) []byte {
	var b []byte
	for i := range in {
		b = append(b, in[i].Bytes()...)
	}
	for i := range out {
		b = append(b, out[i].Bytes()...)
	}
	for i := range ker {
		b = append(b, ker[i].Bytes()...)
	}
	return b
}

func Address(t *rapid.T) ref.Addr {
	n := 4
	if rapid.Bool().Draw(t, "v6") {
		n = 16
	}
	a := ref.Addr{IP: gen.Bytes(t, "ip", n), Port: rapid.Uint16().Draw(t, "port")}
	return a.Unmap()
}

func UpTo(t *rapid.T, label string, limit int) int {
	return rapid.OneOf(rapid.IntRange(0, min(4, limit)), rapid.IntRange(0, limit), rapid.Just(limit)).Draw(t, label)
}

var Targets = []Target{
	{"header", func() p2p.Message { return new(p2p.BlockHeader) }, func(t *rapid.T) ([]byte, []int) {
		h := gen.Header(t)
		return h.Bytes(), headerMarks(0, &h)
	}, plain},
	{"headers", func() p2p.Message { return new(p2p.BlockHeaders) }, func(t *rapid.T) ([]byte, []int) {
		var l []ref.Header
		marks := []int{0, 1}
		off := 2
		n := UpTo(t, "headers", 6)
		many := rapid.IntRange(0, 49).Draw(t, "many") == 0
		if many {
			n = ref.MaxHeaders - rapid.IntRange(0, 1).Draw(t, "less")
		}
		for i := 0; i < n; i++ {
			var h ref.Header
			if many && i > 0 {
				h = l[0]
				h.Height += uint64(i)
			} else {
				h = gen.Header(t)
			}
			l = append(l, h)
			marks = append(marks, headerMarks(off, &h)...)
			off += len(h.Bytes())
		}
		return ref.Headers(l), marks
	}, plain},
	{"block", func() p2p.Message { return new(consensus.Block) }, func(t *rapid.T) ([]byte, []int) {
		b := ref.Block{Header: gen.Header(t), Body: gen.Body(t, 6)}
		if rapid.Bool().Draw(t, "sorted") {
			b.Sort()
		}
		return b.BytesAsGiven(), append(headerMarks(0, &b.Header), BodyMarks(len(b.Header.Bytes()), &b.Body)...)
	}, func(m p2p.Message) []byte {
		b := m.(*consensus.Block)
		return Cat(b.Header.Bytes(), BE(8, uint64(len(b.Inputs))), BE(8, uint64(len(b.Outputs))), BE(8, uint64(len(b.Kernels))),
			items(b.Inputs, b.Outputs, b.Kernels))
	}},
	{"transaction", func() p2p.Message { return new(consensus.Transaction) }, func(t *rapid.T) ([]byte, []int) {
		x := ref.Tx{Body: gen.Body(t, 6)}
		copy(x.Offset[:], gen.Bytes(t, "offset", 32))
		x.Sort()
		return x.Bytes(), BodyMarks(32, &x.Body)
	}, func(m p2p.Message) []byte {
		b := m.(*consensus.Transaction)
		return Cat(b.KernelOffset[:], BE(8, uint64(len(b.Inputs))), BE(8, uint64(len(b.Outputs))), BE(8, uint64(len(b.Kernels))),
			items(b.Inputs, b.Outputs, b.Kernels))
	}},
	{"compact", func() p2p.Message { return new(consensus.CompactBlock) }, func(t *rapid.T) ([]byte, []int) {
		x := ref.Compact{Header: gen.Header(t), Body: gen.Body(t, 4)}
		x.Inputs = nil
		for n := UpTo(t, "ids", 40); n > 0; n-- {
			var id [6]byte
			copy(id[:], gen.Bytes(t, "id", 6))
			x.IDs = append(x.IDs, id)
		}
		x.Sort()
		n := len(x.Header.Bytes())
		return x.Bytes(), append(headerMarks(0, &x.Header), append(BodyMarks(n+10-24, &x.Body), n, n+1, n+2, n+9)...)
	}, func(m p2p.Message) []byte {
		b := m.(*consensus.CompactBlock)
		out := Cat(b.Header.Bytes(), []byte{uint8(len(b.Outputs)), uint8(len(b.Kernels))}, BE(8, uint64(len(b.KernelIDs))),
			items(nil, b.Outputs, b.Kernels))
		for _, id := range b.KernelIDs {
			out = append(out, id...)
		}
		return out
	}},
	{"ping", func() p2p.Message { return new(p2p.Ping) }, func(t *rapid.T) ([]byte, []int) {
		return ref.Status(rapid.Uint64().Draw(t, "td"), rapid.Uint64().Draw(t, "height")), nil
	}, plain},
	{"pong", func() p2p.Message { return new(p2p.Pong) }, func(t *rapid.T) ([]byte, []int) {
		return ref.Status(rapid.Uint64().Draw(t, "td"), rapid.Uint64().Draw(t, "height")), nil
	}, plain},
	{"get addrs", func() p2p.Message { return new(p2p.GetPeerAddrs) }, func(t *rapid.T) ([]byte, []int) {
		return ref.U32(rapid.Uint32().Draw(t, "capabilities")), nil
	}, plain},
	{"get block", func() p2p.Message { return new(p2p.GetBlock) }, func(t *rapid.T) ([]byte, []int) {
		return gen.Bytes(t, "hash", 32), nil
	}, plain},
	{"error", func() p2p.Message { return new(p2p.PeerError) }, func(t *rapid.T) ([]byte, []int) {
		n := UpTo(t, "length", rapid.SampledFrom([]int{10, 1000, ref.MaxString}).Draw(t, "size"))
		return ref.PeerError(rapid.Uint32().Draw(t, "code"), string(gen.Bytes(t, "text", n))), []int{4, 11, 12}
	}, plain},
	{"addrs", func() p2p.Message { return new(p2p.PeerAddrs) }, func(t *rapid.T) ([]byte, []int) {
		var l []ref.Addr
		marks := []int{0, 3}
		off := 4
		for n := UpTo(t, "addrs", rapid.SampledFrom([]int{4, ref.MaxAddrs}).Draw(t, "size")); n > 0; n-- {
			a := Address(t)
			l = append(l, a)
			marks = append(marks, off)
			off += len(a.Bytes())
		}
		return ref.Addrs(l), marks
	}, plain},
	{"get headers", func() p2p.Message { return new(p2p.GetBlockHeaders) }, func(t *rapid.T) ([]byte, []int) {
		var l [][32]byte
		for n := UpTo(t, "locator", ref.MaxLocator); n > 0; n-- {
			var h [32]byte
			copy(h[:], gen.Bytes(t, "hash", 32))
			l = append(l, h)
		}
		return ref.Locator(l), []int{0}
	}, plain},
}

// Position draws an offset into n bytes, often near a mark.
func Position(t *rapid.T, n int, marks []int) int {
	if n == 0 {
		return 0
	}
	if len(marks) > 0 && rapid.Bool().Draw(t, "atMark") {
		p := rapid.SampledFrom(marks).Draw(t, "mark") + rapid.IntRange(0, 7).Draw(t, "plus")
		return max(0, min(p, n-1))
	}
	return rapid.IntRange(0, n-1).Draw(t, "position")
}

var Interesting = []uint64{0, 1, 2, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x10000, 100000, 100001, 300000, 1000000, 1000000, 1000001, 20000001,
	1 << 31, 1<<32 - 1, 1 << 32, 1<<62 - 1, 1 << 62, 1<<63 - 1, 1 << 63, 1<<64 - 1, 674, 675, 676, 5134, 5135, 256, 257, 512, 513, 14, 15}

// Corrupt changes b a little and says what it did.
func Corrupt(t *rapid.T, b []byte, marks []int) ([]byte, string) {
	b = append([]byte{}, b...)
	what := ""
	for n := rapid.IntRange(1, 3).Draw(t, "changes"); n > 0; n-- {
		p := Position(t, len(b), marks)
		switch op := rapid.IntRange(0, 7).Draw(t, "op"); {
		case len(b) == 0 || op == 0: // insert
			x := gen.Bytes(t, "insert", rapid.IntRange(1, 9).Draw(t, "inserted"))
			b = Cat(b[:p], x, b[p:])
			what += fmt.Sprintf(" insert %d at %d", len(x), p)
		case op == 1: // flip a bit
			b[p] ^= 1 << rapid.IntRange(0, 7).Draw(t, "bit")
			what += fmt.Sprintf(" flip a bit at %d", p)
		case op == 2:
			b[p] = rapid.Byte().Draw(t, "value")
			what += fmt.Sprintf(" set %d to %#x", p, b[p])
		case op == 3:
			b = b[:p]
			what += fmt.Sprintf(" truncate to %d", p)
		case op == 4:
			q := min(len(b), p+rapid.IntRange(1, 40).Draw(t, "deleted"))
			b = Cat(b[:p], b[q:])
			what += fmt.Sprintf(" delete %d-%d", p, q)
		case op == 5:
			q := min(len(b), p+rapid.IntRange(1, 40).Draw(t, "repeated"))
			b = Cat(b[:q], b[p:])
			what += fmt.Sprintf(" repeat %d-%d", p, q)
		default:
			w := rapid.SampledFrom([]int{1, 2, 4, 8}).Draw(t, "width")
			v := rapid.SampledFrom(Interesting).Draw(t, "number")
			if p+w > len(b) {
				p = max(0, len(b)-w)
			}
			copy(b[p:], BE(w, v))
			what += fmt.Sprintf(" write %d as %d bytes at %d", v, w, p)
		}
	}
	return b, what
}

// Reader hands out b in pieces.
func Reader(t *rapid.T, b []byte) (r io.Reader, left func() int) {
	br := bytes.NewReader(b)
	r = br
	switch rapid.IntRange(0, 6).Draw(t, "reader") {
	case 1:
		r = iotest.OneByteReader(br)
	case 2:
		r = iotest.HalfReader(br)
	case 3:
		r = &pieces{br, rapid.SliceOfN(rapid.IntRange(1, 50), 1, 5).Draw(t, "pieces"), 0}
	case 4:
		buf := bytes.NewBuffer(append([]byte{}, b...))
		return buf, buf.Len
	case 5:
		r = last{br}
	}
	return r, br.Len
}

// last is a reader that gives the end of the file with the last bytes.
type last struct{ *bytes.Reader }

func (r last) Read(b []byte) (int, error) {
	n, err := r.Reader.Read(b)
	if err == nil && r.Len() == 0 {
		err = io.EOF
	}
	return n, err
}

type pieces struct {
	r    io.Reader
	size []int
	i    int
}

func (p *pieces) Read(b []byte) (int, error) {
	n := p.size[p.i%len(p.size)]
	p.i++
	return p.r.Read(b[:min(n, len(b))])
}

func Brief(b []byte) string {
	if len(b) > 3000 {
		return fmt.Sprintf("%d bytes %x...", len(b), b[:3000])
	}
	return fmt.Sprintf("%d bytes %x", len(b), b)
}
