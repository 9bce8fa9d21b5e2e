// Package gen draws wire objects. Long byte strings are expanded from a drawn
// seed, so that cases stay small for the shrinker.
package gen

import (
	"crypto/sha256"
	"encoding/binary"
	"math/big"

	"pgregory.net/rapid"

	"verif/harness/data"
	"verif/harness/ref"
)

// Valid range of block timestamps.
const (
	MinTime = -8334632851200
	MaxTime = 8210298326400
)

// Expand makes n bytes from a seed.
func Expand(seed uint64, n int) []byte {
	out := make([]byte, 0, n+32)
	var b [16]byte
	binary.BigEndian.PutUint64(b[:], seed)
	for i := 0; len(out) < n; i++ {
		binary.BigEndian.PutUint64(b[8:], uint64(i))
		h := sha256.Sum256(b[:])
		out = append(out, h[:]...)
	}
	return out[:n]
}

// Bytes draws n bytes: mostly random, sometimes constant.
func Bytes(t *rapid.T, label string, n int) []byte {
	switch rapid.IntRange(0, 9).Draw(t, label+"Kind") {
	case 8:
		return make([]byte, n)
	case 9:
		b := make([]byte, n)
		for i := range b {
			b[i] = 0xff
		}
		return b
	}
	return Expand(rapid.Uint64().Draw(t, label), n)
}

func b32(t *rapid.T, label string) (x [32]byte) { copy(x[:], Bytes(t, label, 32)); return }

// Header draws a header with any values that the wire format has.
func Header(t *rapid.T) (h ref.Header) {
	h.Version = rapid.Uint16().Draw(t, "version")
	h.Height = rapid.Uint64().Draw(t, "height")
	h.Time = rapid.OneOf(rapid.Int64Range(0, 4e9), rapid.Int64Range(MinTime, MaxTime),
		rapid.SampledFrom([]int64{MinTime, MaxTime, -1, 0})).Draw(t, "time")
	h.Prev, h.PrevRoot, h.UTXORoot = b32(t, "prev"), b32(t, "prevRoot"), b32(t, "utxoRoot")
	h.ProofRoot, h.KernelRoot, h.Offset = b32(t, "proofRoot"), b32(t, "kernelRoot"), b32(t, "offset")
	h.OutMMR, h.KerMMR = rapid.Uint64().Draw(t, "outMMR"), rapid.Uint64().Draw(t, "kerMMR")
	h.TD, h.Scaling = rapid.Uint64().Draw(t, "td"), rapid.Uint32().Draw(t, "scaling")
	h.Nonce = rapid.Uint64().Draw(t, "nonce")
	h.EdgeBits, h.Edges = Proof(t)
	return
}

// Proof draws proof of work contents: 42 numbers of edgeBits bits.
func Proof(t *rapid.T) (bits uint8, edges []uint32) {
	bits = uint8(rapid.OneOf(rapid.IntRange(1, 32), rapid.SampledFrom([]int{29, 30, 31, 32})).Draw(t, "edgeBits"))
	raw := Bytes(t, "edges", 42*4)
	for i := 0; i < 42; i++ {
		edges = append(edges, uint32(uint64(binary.BigEndian.Uint32(raw[4*i:]))&(1<<bits-1)))
	}
	return
}

// Point draws a serialised point, which needs not be on the curve.
func Point(t *rapid.T, label string) (p ref.Point) {
	copy(p[1:], Bytes(t, label, 32))
	p[0] = 8 + uint8(rapid.IntRange(0, 1).Draw(t, label+"Sign"))
	return
}

// ProofSize is the size of a range proof.
const ProofSize = 675

// RangeProof draws the bytes of a range proof, not a valid one, with the unused
// bits clear.
func RangeProof(t *rapid.T) []byte {
	b := Bytes(t, "rangeProof", ProofSize)
	b[64] &= 0x0f
	b[32+32+129+32+128+1] &= 0x03
	return b
}

func features(t *rapid.T, label string) uint8 {
	return uint8(rapid.OneOf(rapid.IntRange(0, 1), rapid.IntRange(0, 255)).Draw(t, label))
}

// Input, Output and Kernel draw items of blocks and transactions.
func Input(t *rapid.T) (i ref.Input) {
	i.Features = features(t, "inputFeatures")
	copy(i.Commit[:], Bytes(t, "inputCommit", 33))
	return
}

func Output(t *rapid.T) (o ref.Output) {
	o.Features = features(t, "outputFeatures")
	o.Commit = Point(t, "outputCommit")
	o.Proof = RangeProof(t)
	return
}

func Kernel(t *rapid.T) (k ref.Kernel) {
	k.Features = features(t, "kernelFeatures")
	k.Fee, k.LockHeight = rapid.Uint64().Draw(t, "fee"), rapid.Uint64().Draw(t, "lockHeight")
	k.Excess = Point(t, "excess")
	copy(k.Sig[:], Bytes(t, "sig", 64))
	return
}

func count(t *rapid.T, label string, hi int) int {
	return rapid.OneOf(rapid.IntRange(0, min(3, hi)), rapid.IntRange(0, hi)).Draw(t, label)
}

// Body draws the lists of a block or a transaction in any order. Outputs that
// differ only in their proof have no defined order, so there are none.
func Body(t *rapid.T, hi int) (b ref.Body) {
	for n := count(t, "inputs", hi); n > 0; n-- {
		b.Inputs = append(b.Inputs, Input(t))
	}
	seen := map[ref.Point]bool{}
	for n := count(t, "outputs", hi); n > 0; n-- {
		o := Output(t)
		if !seen[o.Commit] {
			seen[o.Commit] = true
			b.Outputs = append(b.Outputs, o)
		}
	}
	for n := count(t, "kernels", hi); n > 0; n-- {
		b.Kernels = append(b.Kernels, Kernel(t))
	}
	return
}

// thin are multiples of G with a coordinate that starts with one or more zero
// bytes.
var thin = []int{153, 246, 886, 122, 533, 44629, 58165, 63439, 68831, 127948, 185169, 218177, 247635, 320804, 41192, 394851, 396508}

// Scalar draws a private key or nonce: in [1, N).
func Scalar(t *rapid.T, label string) *big.Int {
	if kind := rapid.IntRange(0, 9).Draw(t, label+"Kind"); kind >= 8 {
		n := rapid.IntRange(1, 20).Draw(t, label)
		if kind == 8 {
			n = thin[(n-1)%len(thin)]
		}
		k := big.NewInt(int64(n))
		if rapid.Bool().Draw(t, label+"Neg") {
			k.Sub(ref.N, k)
		}
		return k
	}
	k := new(big.Int).SetBytes(Expand(rapid.Uint64().Draw(t, label), 32))
	k.Mod(k, new(big.Int).Sub(ref.N, big.NewInt(1)))
	return k.Add(k, big.NewInt(1))
}

// ValidKernel draws a kernel with a valid signature.
func ValidKernel(t *rapid.T, features uint8) ref.Kernel {
	n := rapid.OneOf(rapid.Uint64(), rapid.Uint64(), rapid.Uint64Range(0, 2))
	return ref.NewKernel(features, n.Draw(t, "fee"), n.Draw(t, "lockHeight"), Scalar(t, "key"), Scalar(t, "k"))
}

var outs = data.Outputs()

// ValidOutput draws an output with a valid range proof, from the first n.
func ValidOutput(t *rapid.T, features uint8) ref.Output {
	n := len(outs)
	for outs[n-1].OffCurve {
		n--
	}
	o := outs[rapid.IntRange(0, n-1).Draw(t, "output")].Output
	o.Features = features
	return o
}

// OffCurveOutput is an output whose range proof satisfies the equations while
// its commitment is no curve point.
func OffCurveOutput(features uint8) ref.Output {
	for _, o := range outs {
		if o.OffCurve {
			x := o.Output
			x.Features = features
			return x
		}
	}
	panic("none")
}

// ValidBody draws a body that is good in a block: sorted, at least one output
// and kernel, at most one coinbase of each, distinct outputs.
func ValidBody(t *rapid.T, maxOut, maxKer int) (b ref.Body) {
	for n := count(t, "inputs", 4); n > 0; n-- {
		b.Inputs = append(b.Inputs, Input(t))
	}
	coinbase := rapid.IntRange(-1, maxOut-1).Draw(t, "coinbaseOutput")
	seen := map[ref.Point]bool{}
	for i, n := 0, rapid.IntRange(1, maxOut).Draw(t, "outputs"); i < n; i++ {
		f := uint8(0)
		if i == coinbase {
			f = 1
		}
		o := ValidOutput(t, f)
		if !seen[o.Commit] {
			seen[o.Commit] = true
			b.Outputs = append(b.Outputs, o)
		}
	}
	coinbase = rapid.IntRange(-1, maxKer-1).Draw(t, "coinbaseKernel")
	for i, n := 0, rapid.IntRange(1, maxKer).Draw(t, "kernels"); i < n; i++ {
		f := uint8(0)
		if i == coinbase {
			f = 1
		}
		b.Kernels = append(b.Kernels, ValidKernel(t, f))
	}
	b.Sort()
	return
}
