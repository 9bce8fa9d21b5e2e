// Package ref holds reference models, written from the wire format and the
// consensus rules and sharing no code with gringo, against which the checks
// compare the real code.
package ref

import (
	"bytes"
	"encoding/binary"
	"errors"
	"math/big"
	"sort"

	"golang.org/x/crypto/blake2b"
)

// Cycle is the proof of work's cycle length.
const Cycle = 42

// Header is a block header. Hashes are raw bytes.
type Header struct {
	Version    uint16
	Height     uint64
	Time       int64
	Prev       [32]byte
	PrevRoot   [32]byte
	UTXORoot   [32]byte
	ProofRoot  [32]byte
	KernelRoot [32]byte
	Offset     [32]byte
	OutMMR     uint64
	KerMMR     uint64
	TD         uint64
	Scaling    uint32
	Nonce      uint64
	EdgeBits   uint8
	Edges      []uint32
}

func be16(b *bytes.Buffer, v uint16) { b.Write([]byte{byte(v >> 8), byte(v)}) }
func be32(b *bytes.Buffer, v uint32) { be16(b, uint16(v>>16)); be16(b, uint16(v)) }
func be64(b *bytes.Buffer, v uint64) { be32(b, uint32(v>>32)); be32(b, uint32(v)) }

// PrePow is the part of the header that the proof of work commits to.
func (h *Header) PrePow() []byte {
	b := new(bytes.Buffer)
	be16(b, h.Version)
	be64(b, h.Height)
	be64(b, uint64(h.Time))
	for _, x := range [][32]byte{h.Prev, h.PrevRoot, h.UTXORoot, h.ProofRoot, h.KernelRoot, h.Offset} {
		b.Write(x[:])
	}
	be64(b, h.OutMMR)
	be64(b, h.KerMMR)
	be64(b, h.TD)
	be32(b, h.Scaling)
	be64(b, h.Nonce)
	return b.Bytes()
}

// PackEdges packs the edge nonces, edgeBits bits each, least significant bit
// first, into a bit vector padded with zeroes to whole bytes. It goes through a
// big integer so as not to resemble a bit loop.
func PackEdges(edges []uint32, edgeBits uint8) []byte {
	acc := new(big.Int)
	for i := len(edges) - 1; i >= 0; i-- {
		acc.Lsh(acc, uint(edgeBits))
		acc.Or(acc, new(big.Int).SetUint64(uint64(edges[i])))
	}
	n := (Cycle*int(edgeBits) + 7) / 8
	be := acc.Bytes()
	out := make([]byte, n)
	for i := range be {
		if j := len(be) - 1 - i; j < n {
			out[j] = be[i]
		}
	}
	return out
}

// Pow is the serialised proof of work.
func (h *Header) Pow() []byte {
	return append([]byte{h.EdgeBits}, PackEdges(h.Edges, h.EdgeBits)...)
}

// Bytes is the serialised header.
func (h *Header) Bytes() []byte { return append(h.PrePow(), h.Pow()...) }

// Hash is the block hash: it covers the packed edge nonces only.
func (h *Header) Hash() [32]byte { return blake2b.Sum256(PackEdges(h.Edges, h.EdgeBits)) }

// PowDifficulty is the difficulty the proof of work itself reached.
func (h *Header) PowDifficulty() uint64 {
	x := blake2b.Sum256(h.Pow())
	return HashDifficulty(x[:])
}

// HashDifficulty is the maximum target divided by the hash's first 64 bits.
func HashDifficulty(hash []byte) uint64 {
	num := binary.BigEndian.Uint64(hash)
	if num == 0 {
		num = 1
	}
	return 0x0fffffffffffffff / num
}

// Point is a serialised commitment.
type Point [33]byte

// Input spends an output.
type Input struct {
	Features uint8
	Commit   Point
}

func (i *Input) Bytes() []byte { return append([]byte{i.Features}, i.Commit[:]...) }

// Output is a commitment with its range proof.
type Output struct {
	Features uint8
	Commit   Point
	Proof    []byte
}

func (o *Output) bare() []byte { return append([]byte{o.Features}, o.Commit[:]...) }

func (o *Output) Bytes() []byte {
	b := bytes.NewBuffer(o.bare())
	be64(b, uint64(len(o.Proof)))
	b.Write(o.Proof)
	return b.Bytes()
}

// Kernel is a transaction kernel.
type Kernel struct {
	Features   uint8
	Fee        uint64
	LockHeight uint64
	Excess     Point
	Sig        [64]byte
}

func (k *Kernel) Bytes() []byte {
	b := new(bytes.Buffer)
	b.WriteByte(k.Features)
	be64(b, k.Fee)
	be64(b, k.LockHeight)
	b.Write(k.Excess[:])
	b.Write(k.Sig[:])
	return b.Bytes()
}

// Body is what transactions and blocks carry.
type Body struct {
	Inputs  []Input
	Outputs []Output
	Kernels []Kernel
}

// sorted returns the items ordered by the hash of their key bytes.
func sorted(n int, key, data func(int) []byte) [][]byte {
	idx := make([]int, n)
	hs := make([][32]byte, n)
	for i := range idx {
		idx[i], hs[i] = i, blake2b.Sum256(key(i))
	}
	sort.SliceStable(idx, func(a, b int) bool { return bytes.Compare(hs[idx[a]][:], hs[idx[b]][:]) < 0 })
	out := make([][]byte, n)
	for i, j := range idx {
		out[i] = data(j)
	}
	return out
}

func (t *Body) inputs() [][]byte {
	f := func(i int) []byte { return t.Inputs[i].Bytes() }
	return sorted(len(t.Inputs), f, f)
}

func (t *Body) outputs() [][]byte {
	return sorted(len(t.Outputs), func(i int) []byte { return t.Outputs[i].bare() },
		func(i int) []byte { return t.Outputs[i].Bytes() })
}

func (t *Body) kernels() [][]byte {
	f := func(i int) []byte { return t.Kernels[i].Bytes() }
	return sorted(len(t.Kernels), f, f)
}

// Bytes is the serialised body, lists in consensus order.
func (t *Body) Bytes() []byte {
	b := new(bytes.Buffer)
	be64(b, uint64(len(t.Inputs)))
	be64(b, uint64(len(t.Outputs)))
	be64(b, uint64(len(t.Kernels)))
	for _, l := range [][][]byte{t.inputs(), t.outputs(), t.kernels()} {
		for _, x := range l {
			b.Write(x)
		}
	}
	return b.Bytes()
}

// BytesAsGiven serialises the body with the lists in the order they are in.
func (t *Body) BytesAsGiven() []byte {
	b := new(bytes.Buffer)
	be64(b, uint64(len(t.Inputs)))
	be64(b, uint64(len(t.Outputs)))
	be64(b, uint64(len(t.Kernels)))
	for i := range t.Inputs {
		b.Write(t.Inputs[i].Bytes())
	}
	for i := range t.Outputs {
		b.Write(t.Outputs[i].Bytes())
	}
	for i := range t.Kernels {
		b.Write(t.Kernels[i].Bytes())
	}
	return b.Bytes()
}

// InOrder tells whether the three lists are in consensus order.
func (t *Body) InOrder() bool { return bytes.Equal(t.Bytes(), t.BytesAsGiven()) }

// Sort puts the lists in consensus order.
func (t *Body) Sort() {
	b, err := ParseBody(&Reader{B: t.Bytes()})
	if err != nil {
		panic(err)
	}
	*t = b
}

// Block is a full block.
type Block struct {
	Header Header
	Body
}

func (b *Block) Bytes() []byte        { return append(b.Header.Bytes(), b.Body.Bytes()...) }
func (b *Block) BytesAsGiven() []byte { return append(b.Header.Bytes(), b.Body.BytesAsGiven()...) }

// Tx is a transaction.
type Tx struct {
	Offset [32]byte
	Body
}

func (t *Tx) Bytes() []byte { return append(append([]byte{}, t.Offset[:]...), t.Body.Bytes()...) }
func (t *Tx) BytesAsGiven() []byte {
	return append(append([]byte{}, t.Offset[:]...), t.Body.BytesAsGiven()...)
}

// Compact is a compact block.
type Compact struct {
	Header Header
	Body   // no inputs
	IDs    [][6]byte
}

func (c *Compact) Bytes() []byte {
	b := bytes.NewBuffer(c.Header.Bytes())
	b.WriteByte(uint8(len(c.Outputs)))
	b.WriteByte(uint8(len(c.Kernels)))
	be64(b, uint64(len(c.IDs)))
	for _, x := range c.outputs() {
		b.Write(x)
	}
	for _, x := range c.kernels() {
		b.Write(x)
	}
	ids := append([][6]byte{}, c.IDs...)
	sort.Slice(ids, func(i, j int) bool { return bytes.Compare(ids[i][:], ids[j][:]) < 0 })
	for _, x := range ids {
		b.Write(x[:])
	}
	return b.Bytes()
}

// ErrShort is returned when the input ends too early.
var ErrShort = errors.New("short input")

// Reader reads big endian values off a byte slice.
type Reader struct {
	B   []byte
	Bad bool
}

// Take returns the next n bytes.
func (r *Reader) Take(n int) []byte {
	if r.Bad || n < 0 || n > len(r.B) {
		r.Bad = true
		return make([]byte, max(0, min(n, 1<<16)))
	}
	x := r.B[:n]
	r.B = r.B[n:]
	return x
}
func (r *Reader) U8() uint8   { return r.Take(1)[0] }
func (r *Reader) U16() uint16 { return binary.BigEndian.Uint16(r.Take(2)) }
func (r *Reader) U32() uint32 { return binary.BigEndian.Uint32(r.Take(4)) }
func (r *Reader) U64() uint64 { return binary.BigEndian.Uint64(r.Take(8)) }

// ParseHeader reads a header.
func ParseHeader(r *Reader) (h Header, err error) {
	h.Version, h.Height, h.Time = r.U16(), r.U64(), int64(r.U64())
	for _, x := range []*[32]byte{&h.Prev, &h.PrevRoot, &h.UTXORoot, &h.ProofRoot, &h.KernelRoot, &h.Offset} {
		copy(x[:], r.Take(32))
	}
	h.OutMMR, h.KerMMR, h.TD, h.Scaling, h.Nonce = r.U64(), r.U64(), r.U64(), r.U32(), r.U64()
	h.EdgeBits = r.U8()
	if r.Bad {
		return h, ErrShort
	}
	if h.EdgeBits == 0 || h.EdgeBits > 32 {
		return h, errors.New("edge bits")
	}
	raw := r.Take((Cycle*int(h.EdgeBits) + 7) / 8)
	if r.Bad {
		return h, ErrShort
	}
	be := make([]byte, len(raw))
	for i, x := range raw {
		be[len(raw)-1-i] = x
	}
	acc := new(big.Int).SetBytes(be)
	mask := new(big.Int).SetUint64(1<<h.EdgeBits - 1)
	for i := 0; i < Cycle; i++ {
		h.Edges = append(h.Edges, uint32(new(big.Int).And(acc, mask).Uint64()))
		acc.Rsh(acc, uint(h.EdgeBits))
	}
	if acc.Sign() != 0 {
		return h, errors.New("padding")
	}
	return h, nil
}

func parseOutput(r *Reader) (o Output) {
	o.Features = r.U8()
	copy(o.Commit[:], r.Take(33))
	n := r.U64()
	if n > 1<<20 {
		r.Bad = true
		return
	}
	o.Proof = append([]byte{}, r.Take(int(n))...)
	return
}

func parseKernel(r *Reader) (k Kernel) {
	k.Features, k.Fee, k.LockHeight = r.U8(), r.U64(), r.U64()
	copy(k.Excess[:], r.Take(33))
	copy(k.Sig[:], r.Take(64))
	return
}

// ParseBody reads a body, without judging the order of its lists.
func ParseBody(r *Reader) (t Body, err error) {
	a, b, c := r.U64(), r.U64(), r.U64()
	if r.Bad || a+b+c > 1<<22 {
		return t, ErrShort
	}
	for ; a > 0 && !r.Bad; a-- {
		i := Input{Features: r.U8()}
		copy(i.Commit[:], r.Take(33))
		t.Inputs = append(t.Inputs, i)
	}
	for ; b > 0 && !r.Bad; b-- {
		t.Outputs = append(t.Outputs, parseOutput(r))
	}
	for ; c > 0 && !r.Bad; c-- {
		t.Kernels = append(t.Kernels, parseKernel(r))
	}
	if r.Bad {
		return t, ErrShort
	}
	return t, nil
}

// ParseBlock reads a block.
func ParseBlock(p []byte) (b Block, rest []byte, err error) {
	r := &Reader{B: p}
	if b.Header, err = ParseHeader(r); err != nil {
		return
	}
	b.Body, err = ParseBody(r)
	return b, r.B, err
}

func hash(b []byte) []byte { h := blake2b.Sum256(b); return h[:] }
