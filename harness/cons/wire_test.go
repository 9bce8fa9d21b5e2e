// Package cons checks the consensus package: its wire format and its rules.
package cons

import (
	"bytes"
	"fmt"
	"io"
	"reflect"
	"testing"
	"time"

	"github.com/dblokhin/gringo/consensus"
	"pgregory.net/rapid"

	"verif/harness/conv"
	"verif/harness/data"
	"verif/harness/gen"
	"verif/harness/kit"
	"verif/harness/ref"
)

// diff describes where two byte strings differ.
func diff(got, want []byte) string {
	i := 0
	for i < len(got) && i < len(want) && got[i] == want[i] {
		i++
	}
	lo := max(0, i-8)
	return fmt.Sprintf("%d bytes, want %d; first difference at %d: got ..%x.., want ..%x..", len(got), len(want), i,
		got[lo:min(len(got), i+24)], want[lo:min(len(want), i+24)])
}

// encoder and decoder are what gringo's wire objects have.
type encoder interface{ Bytes() []byte }
type decoder interface{ Read(io.Reader) error }

func sameBytes(c *kit.Case, what string, o encoder, want []byte) {
	var got []byte
	c.Must("encoding "+what, func() { got = o.Bytes() })
	if !bytes.Equal(got, want) {
		c.Fatalf("%s is encoded wrongly: %s", what, diff(got, want))
	}
}

// decodeAll decodes all of b, followed by something else, which has to be left
// alone.
func decodeAll(c *kit.Case, what string, o decoder, b []byte) {
	r := bytes.NewReader(append(append([]byte{}, b...), 0xa5, 0x5a, 0xff))
	var err error
	c.Must("decoding "+what, func() { err = o.Read(r) })
	if err != nil {
		c.Fatalf("a valid %s of %d bytes is rejected: %v", what, len(b), err)
	}
	if r.Len() != 3 {
		c.Fatalf("decoding a %s of %d bytes took %d", what, len(b), len(b)+3-r.Len())
	}
}

func sameHeader(c *kit.Case, got *consensus.BlockHeader, want ref.Header) {
	for _, x := range []struct {
		name string
		l    int
	}{{"Previous", len(got.Previous)}, {"PreviousRoot", len(got.PreviousRoot)}, {"UTXORoot", len(got.UTXORoot)},
		{"RangeProofRoot", len(got.RangeProofRoot)}, {"KernelRoot", len(got.KernelRoot)}, {"TotalKernelOffset", len(got.TotalKernelOffset)}} {
		if x.l != 32 {
			c.Fatalf("decoded %s has %d bytes", x.name, x.l)
		}
	}
	if back := conv.BackHeader(got); !reflect.DeepEqual(back, want) {
		c.Fatalf("header decoded as\n%+v\nwant\n%+v", back, want)
	}
}

// sorted returns the body with its lists in consensus order.
func sorted(b ref.Body) ref.Body {
	b.Sort()
	return b
}

func sameBody(c *kit.Case, in consensus.InputList, out consensus.OutputList, ker consensus.TxKernelList, want ref.Body) {
	got := conv.BackBody(in, out, ker)
	if g, w := got.BytesAsGiven(), want.BytesAsGiven(); !bytes.Equal(g, w) {
		c.Fatalf("lists decoded wrongly: %s", diff(g, w))
	}
}

// dups repeats some inputs and kernels.
func dups(t *rapid.T, b *ref.Body) {
	if len(b.Inputs) > 0 && rapid.IntRange(0, 4).Draw(t, "dupInput") == 0 {
		b.Inputs = append(b.Inputs, b.Inputs[0])
	}
	if len(b.Kernels) > 0 && rapid.IntRange(0, 4).Draw(t, "dupKernel") == 0 {
		b.Kernels = append(b.Kernels, b.Kernels[0])
	}
	if len(b.Outputs) > 0 && rapid.IntRange(0, 4).Draw(t, "dupOutput") == 0 {
		b.Outputs = append(b.Outputs, b.Outputs[0])
	}
	if rapid.IntRange(0, 4).Draw(t, "alike") == 0 {
		gen.Alike(t, b)
	}
}

func TestC01(t *testing.T) {
	p := kit.New(t, "C01", "an object with at least one list entry, or a header whose edge nonces aren't all equal")

	p.Part("header", kit.Budget{Quick: 4000, Thorough: 200000, Shards: 4}, func(c *kit.Case) {
		h := gen.Header(c.T)
		c.Note("header %+v", h)
		c.Class("edgeBits %d", h.EdgeBits)
		if h.Edges[0] != h.Edges[1] {
			c.NonTrivial()
		}
		x := conv.Header(h)
		sameBytes(c, "header", &x, h.Bytes())
		sameBytes(c, "proof of work", &x.POW, h.Pow())
		var nonces []byte
		c.Must("encoding the nonces", func() { nonces = x.POW.ProofBytes() })
		if w := h.Pow()[1:]; !bytes.Equal(nonces, w) {
			c.Fatalf("nonces encoded wrongly: %s", diff(nonces, w))
		}
		var y consensus.BlockHeader
		decodeAll(c, "header", &y, h.Bytes())
		sameHeader(c, &y, h)
		if _, off := y.Timestamp.Zone(); off != 0 {
			c.Fatalf("the time is not in UTC: %v", y.Timestamp)
		}
		var z consensus.Proof
		decodeAll(c, "proof of work", &z, h.Pow())
		if z.EdgeBits != h.EdgeBits || !reflect.DeepEqual(z.Nonces, h.Edges) {
			c.Fatalf("proof decoded as %v", z)
		}
	})

	p.Part("items", kit.Budget{Quick: 4000, Thorough: 100000, Shards: 4}, func(c *kit.Case) {
		i, o, k := gen.Input(c.T), gen.Output(c.T), gen.Kernel(c.T)
		c.Note("input %+v\noutput %+v\nkernel %+v", i, o, k)
		c.NonTrivial()
		x, y, z := conv.Input(i), conv.Output(o), conv.Kernel(k)
		sameBytes(c, "input", &x, i.Bytes())
		sameBytes(c, "output", &y, o.Bytes())
		sameBytes(c, "kernel", &z, k.Bytes())
		var bare []byte
		c.Must("encoding an output without its proof", func() { bare = y.BytesWithoutProof() })
		if want := o.Bytes()[:34]; !bytes.Equal(bare, want) {
			c.Fatalf("output without its proof: %s", diff(bare, want))
		}
		var x1 consensus.Input
		var y1 consensus.Output
		var z1 consensus.TxKernel
		decodeAll(c, "input", &x1, i.Bytes())
		decodeAll(c, "output", &y1, o.Bytes())
		decodeAll(c, "kernel", &z1, k.Bytes())
		sameBody(c, consensus.InputList{x1}, consensus.OutputList{y1}, consensus.TxKernelList{z1},
			ref.Body{Inputs: []ref.Input{i}, Outputs: []ref.Output{o}, Kernels: []ref.Kernel{k}})
	})

	p.Part("block", kit.Budget{Quick: 1500, Thorough: 40000, Shards: 4}, func(c *kit.Case) {
		b := ref.Block{Header: gen.Header(c.T), Body: gen.Body(c.T, 12)}
		dups(c.T, &b.Body)
		c.Note("block %+v", b)
		lists(c, b.Body)
		sameBytes(c, "block", conv.Block(b), b.Bytes())
		var y consensus.Block
		decodeAll(c, "block", &y, b.Bytes())
		sameHeader(c, &y.Header, b.Header)
		sameBody(c, y.Inputs, y.Outputs, y.Kernels, sorted(b.Body))
		if y.Type() != 11 {
			c.Fatalf("message type %d", y.Type())
		}
	})

	p.Part("transaction", kit.Budget{Quick: 1500, Thorough: 40000, Shards: 4}, func(c *kit.Case) {
		x := ref.Tx{Body: gen.Body(c.T, 12)}
		copy(x.Offset[:], gen.Bytes(c.T, "offset", 32))
		dups(c.T, &x.Body)
		c.Note("transaction %+v", x)
		lists(c, x.Body)
		sameBytes(c, "transaction", conv.Tx(x), x.Bytes())
		var y consensus.Transaction
		decodeAll(c, "transaction", &y, x.Bytes())
		if y.KernelOffset != x.Offset {
			c.Fatalf("offset decoded as %x", y.KernelOffset)
		}
		sameBody(c, y.Inputs, y.Outputs, y.Kernels, sorted(x.Body))
		if y.Type() != 15 {
			c.Fatalf("message type %d", y.Type())
		}
	})

	p.Part("compact block", kit.Budget{Quick: 1500, Thorough: 40000, Shards: 4}, func(c *kit.Case) {
		x := ref.Compact{Header: gen.Header(c.T), Body: gen.Body(c.T, 6)}
		dups(c.T, &x.Body)
		x.Inputs = nil
		for n := rapid.OneOf(rapid.IntRange(0, 4), rapid.IntRange(0, 300)).Draw(c.T, "ids"); n > 0; n-- {
			var id [6]byte
			copy(id[:], gen.Bytes(c.T, "id", 6))
			x.IDs = append(x.IDs, id)
		}
		c.Note("compact block %+v", x)
		lists(c, x.Body)
		if len(x.IDs) > 1 {
			c.NonTrivial()
		}
		sameBytes(c, "compact block", conv.Compact(x), x.Bytes())
		var y consensus.CompactBlock
		decodeAll(c, "compact block", &y, x.Bytes())
		sameHeader(c, &y.Header, x.Header)
		sameBody(c, nil, y.Outputs, y.Kernels, sorted(x.Body))
		var ids []byte
		for _, id := range y.KernelIDs {
			ids = append(ids, id...)
		}
		if b := x.Bytes(); !bytes.HasSuffix(b, ids) || len(ids) != 6*len(x.IDs) || len(y.KernelIDs) != len(x.IDs) {
			c.Fatalf("kernel ids decoded as %x", ids)
		}
		if y.Type() != 13 {
			c.Fatalf("message type %d", y.Type())
		}
	})

	// Compact blocks count their outputs and kernels in one byte each.
	p.Part("large", kit.Budget{Quick: 12, Thorough: 100, Shards: 4, Shrink: time.Second}, func(c *kit.Case) {
		var b ref.Body
		out, ker := rapid.IntRange(0, 255).Draw(c.T, "outputs"), rapid.IntRange(0, 255).Draw(c.T, "kernels")
		proof := gen.RangeProof(c.T)
		for i := 0; i < out; i++ {
			o := ref.Output{Features: uint8(i & 1), Proof: proof}
			copy(o.Commit[:], gen.Expand(uint64(i)+1000, 33))
			o.Commit[0] = 8 + o.Commit[0]&1
			b.Outputs = append(b.Outputs, o)
		}
		for i := 0; i < ker; i++ {
			k := ref.Kernel{Fee: uint64(i), LockHeight: uint64(i) << 40}
			copy(k.Excess[:], gen.Expand(uint64(i)+5000, 33))
			k.Excess[0] = 8 + k.Excess[0]&1
			b.Kernels = append(b.Kernels, k)
		}
		h := gen.Header(c.T)
		c.Note("%d outputs, %d kernels, header %+v", out, ker, h)
		lists(c, b)
		x := ref.Compact{Header: h, Body: b}
		var y consensus.CompactBlock
		sameBytes(c, "compact block", conv.Compact(x), x.Bytes())
		decodeAll(c, "compact block", &y, x.Bytes())
		sameBody(c, nil, y.Outputs, y.Kernels, sorted(b))
		for i := rapid.SampledFrom([]int{0, 255, 256, 3000}).Draw(c.T, "inputs"); i > 0; i-- {
			in := ref.Input{Features: uint8(i)}
			copy(in.Commit[:], gen.Expand(uint64(i)+9000, 33))
			b.Inputs = append(b.Inputs, in)
		}
		z := ref.Block{Header: h, Body: b}
		var w consensus.Block
		sameBytes(c, "block", conv.Block(z), z.Bytes())
		decodeAll(c, "block", &w, z.Bytes())
		sameBody(c, w.Inputs, w.Outputs, w.Kernels, sorted(b))
		t := ref.Tx{Body: b}
		var v consensus.Transaction
		sameBytes(c, "transaction", conv.Tx(t), t.Bytes())
		decodeAll(c, "transaction", &v, t.Bytes())
		sameBody(c, v.Inputs, v.Outputs, v.Kernels, sorted(b))
	})

	// Lists longer than an 8- or 16-bit count can say, as long as a block's weight
	// allows
	p.Part("huge", kit.Budget{Quick: 8, Thorough: 60, Shards: 8, Shrink: time.Second}, func(c *kit.Case) {
		n := rapid.SampledFrom([]int{65535, 65536, 65537, 79999}).Draw(c.T, "elements")
		kind := rapid.SampledFrom([]string{"inputs", "kernels", "kernel ids"}).Draw(c.T, "kind")
		if kind == "kernels" {
			// no block may have more than 40,000, and they are slow to sort
			n = rapid.SampledFrom([]int{256, 257, 3000}).Draw(c.T, "kernels")
		}
		c.Note("%d %s", n, kind)
		c.NonTrivial()
		h := ref.Header{Version: 1, EdgeBits: 29, Edges: make([]uint32, 42)} // fixed: few choices minimise faster
		c.Class("%s", kind)
		var b ref.Body
		var ids [][6]byte
		for i := 0; i < n; i++ {
			switch kind {
			case "inputs":
				in := ref.Input{Features: uint8(i)}
				copy(in.Commit[:], gen.Expand(uint64(i)+9000, 33))
				b.Inputs = append(b.Inputs, in)
			case "kernels":
				k := ref.Kernel{Fee: uint64(i), LockHeight: uint64(i) << 40}
				copy(k.Excess[:], gen.Expand(uint64(i)+5000, 33))
				k.Excess[0] = 8 + k.Excess[0]&1
				b.Kernels = append(b.Kernels, k)
			default:
				var id [6]byte
				copy(id[:], gen.Expand(uint64(i)+70000, 6))
				ids = append(ids, id)
			}
		}
		if kind == "kernel ids" {
			x := ref.Compact{Header: h, IDs: ids}
			var y consensus.CompactBlock
			sameBytes(c, "compact block", conv.Compact(x), x.Bytes())
			decodeAll(c, "compact block", &y, x.Bytes())
			if len(y.KernelIDs) != n {
				c.Fatalf("%d kernel ids decoded as %d", n, len(y.KernelIDs))
			}
			return
		}
		x := ref.Tx{Body: b}
		var y consensus.Transaction
		sameBytes(c, "transaction", conv.Tx(x), x.Bytes())
		decodeAll(c, "transaction", &y, x.Bytes())
		sameBody(c, y.Inputs, y.Outputs, y.Kernels, sorted(b))
		z := ref.Block{Header: h, Body: b}
		var w consensus.Block
		sameBytes(c, "block", conv.Block(z), z.Bytes())
		decodeAll(c, "block", &w, z.Bytes())
		sameBody(c, w.Inputs, w.Outputs, w.Kernels, sorted(b))
	})

	// Real data from the network
	p.Part("real", kit.Budget{Quick: 1, Thorough: 1}, func(c *kit.Case) {
		b := data.Testnet4Block()
		c.Note("block 65,927 of testnet 4 and a transaction")
		c.NonTrivial()
		var y consensus.Block
		decodeAll(c, "block", &y, b.Bytes())
		sameBytes(c, "block", &y, b.Bytes())
		var x consensus.Transaction
		decodeAll(c, "transaction", &x, data.TxBytes())
		sameBytes(c, "transaction", &x, data.TxBytes())
	})
}

func lists(c *kit.Case, b ref.Body) {
	if len(b.Inputs)+len(b.Outputs)+len(b.Kernels) > 0 {
		c.NonTrivial()
	}
	switch n := max(len(b.Inputs), len(b.Outputs), len(b.Kernels)); {
	case n == 0:
		c.Class("empty")
	case n == 1:
		c.Class("at most one of each")
	default:
		c.Class("lists")
	}
}
