package crypt

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"math/big"
	"testing"

	"github.com/dblokhin/gringo/consensus"
	"github.com/dblokhin/gringo/secp256k1zkp"
	"github.com/yoss22/bulletproofs"
	"pgregory.net/rapid"

	"verif/harness/conv"
	"verif/harness/data"
	"verif/harness/gen"
	"verif/harness/kit"
	"verif/harness/ref"
)

func validate(c *kit.Case, k ref.Kernel) error {
	g := conv.Kernel(k)
	before := fmt.Sprint(conv.BackPoint(&g.Excess), g)
	var err, again error
	c.Must("validating the kernel", func() { err = g.Validate(); again = g.Validate() })
	if (err == nil) != (again == nil) {
		c.Fatalf("validated twice: %v, then %v", err, again)
	}
	if after := fmt.Sprint(conv.BackPoint(&g.Excess), g); after != before {
		c.Fatalf("validating changed the kernel: %s, then %s", before, after)
	}
	return err
}

// forge makes a kernel for an excess that is no curve point but has a small
// order in the arithmetic of whoever doesn't notice: it signs when the
// challenge is a multiple of that order.
func forge(excess ref.Point, fee, lock uint64, k *big.Int) (ref.Kernel, bool) {
	p := conv.Point(excess)
	var pub [33]byte
	pub[0] = 2 + byte(p.Y.Bit(0))
	copy(pub[1:], excess[1:])
	msg := ref.KernelMessage(fee, lock)
	for i := 0; i < 60; i++ {
		R := ref.G.Mul(k)
		n := k
		if !ref.Square(R.Y) {
			n = new(big.Int).Sub(ref.N, k)
		}
		var rx [32]byte
		R.X.FillBytes(rx[:])
		h := sha256.New()
		h.Write(rx[:])
		h.Write(pub[:])
		h.Write(msg[:])
		e := new(big.Int).SetBytes(h.Sum(nil))
		if new(big.Int).Mod(e, big.NewInt(3)).Sign() == 0 {
			out := ref.Kernel{Fee: fee, LockHeight: lock, Excess: excess}
			copy(out.Sig[:32], rx[:])
			n.FillBytes(out.Sig[32:])
			return out, true
		}
		k = new(big.Int).Add(k, big.NewInt(1))
		k.Mod(k, ref.N)
		if k.Sign() == 0 {
			k.SetInt64(1)
		}
	}
	return ref.Kernel{}, false
}

// TestC13: kernels' signatures.
func TestC13(t *testing.T) {
	p := kit.New(t, "C13", "a kernel or a signature with at most a few changes from a valid one",
		"nobody finds signatures without the key; the reference curve arithmetic is right")

	p.Part("kernel", kit.Budget{Quick: 400, Thorough: 12000, Shards: 8}, func(c *kit.Case) {
		k := gen.ValidKernel(c.T, rapid.SampledFrom([]uint8{0, 1, 1, 2, 255}).Draw(c.T, "features"))
		c.Note("kernel %+v", k)
		c.NonTrivial()
		if !k.Valid() {
			c.Fatalf("the reference model rejects its own signature")
		}
		if err := validate(c, k); err != nil {
			c.Fatalf("a good kernel is rejected: %v", err)
		}
		// the features are not signed
		k.Features ^= 1
		if err := validate(c, k); err != nil {
			c.Fatalf("a good kernel is rejected: %v", err)
		}
	})
	p.Part("changed", kit.Budget{Quick: 700, Thorough: 20000, Shards: 8}, func(c *kit.Case) {
		k := gen.ValidKernel(c.T, 0)
		// what was validated before must not matter
		good, history := k, rapid.Bool().Draw(c.T, "history")
		if history {
			if err := validate(c, good); err != nil {
				c.Fatalf("a good kernel is rejected: %v", err)
			}
		}
		what := rapid.IntRange(0, 13).Draw(c.T, "change")
		bit := uint(rapid.IntRange(0, 255).Draw(c.T, "bit"))
		switch what {
		case 0:
			k.Fee ^= 1 << (bit % 64)
		case 1:
			k.LockHeight ^= 1 << (bit % 64)
		case 2:
			k.Fee, k.LockHeight = k.LockHeight, k.Fee
		case 3:
			k.Excess[1+bit/8] ^= 1 << (bit % 8)
		case 4:
			k.Excess[0] ^= 1 // the key's negative
		case 5:
			k.Sig[bit/8] ^= 1 << (bit % 8)
		case 6, 7:
			k.Sig[32+bit/8] ^= 1 << (bit % 8)
		case 8:
			k.Excess = gen.ValidKernel(c.T, 0).Excess
		case 9:
			k.Sig = gen.ValidKernel(c.T, 0).Sig
		case 10: // the signature's negative
			s := new(big.Int).SetBytes(k.Sig[32:])
			s.Sub(ref.N, s)
			s.FillBytes(k.Sig[32:])
		case 11: // signed with a nonce point whose Y can't be implied
			x, n := gen.Scalar(c.T, "x"), gen.Scalar(c.T, "n")
			k.Excess = ref.G.Mul(x).Compress()
			k.Sig = ref.Sign(x, n, ref.KernelMessage(k.Fee, k.LockHeight), true)
		case 12:
			k.Sig = [64]byte{}
			if bit%2 == 1 {
				copy(k.Sig[:], gen.Bytes(c.T, "sig", 64))
			}
		case 13:
			k.Excess = gen.Point(c.T, "excess")
		}
		c.Note("change %d of %+v (validated before: %v): kernel %+v", what, good, history, k)
		c.NonTrivial()
		want := k.Valid()
		c.Class("change %d: %v", what, want)
		if err := validate(c, k); (err == nil) != want {
			c.Fatalf("the signature is valid: %v, but validating: %v", want, err)
		}
		if history {
			if err := validate(c, good); err != nil {
				c.Fatalf("a good kernel is rejected after a changed one: %v", err)
			}
		}
	})
	// the excess is any 33 bytes of the wire
	p.Part("forged", kit.Budget{Quick: 150, Thorough: 4000, Shards: 8}, func(c *kit.Case) {
		excess := ref.Point{8 + uint8(rapid.IntRange(0, 1).Draw(c.T, "sign"))}
		if rapid.IntRange(0, 3).Draw(c.T, "x") == 3 {
			ref.P.FillBytes(excess[1:]) // zero again
		}
		k, ok := forge(excess, rapid.Uint64().Draw(c.T, "fee"), rapid.Uint64().Draw(c.T, "lock"), gen.Scalar(c.T, "k"))
		if !ok {
			return
		}
		c.Note("kernel %+v", k)
		c.NonTrivial()
		if err := validate(c, k); err == nil {
			c.Fatalf("a kernel without an excess key is accepted")
		}
	})
	p.Part("sign", kit.Budget{Quick: 300, Thorough: 8000, Shards: 8}, func(c *kit.Case) {
		x := gen.Scalar(c.T, "key")
		pub := ref.G.Mul(x)
		var msg [32]byte
		copy(msg[:], gen.Bytes(c.T, "message", 32))
		c.Note("key %x message %x", x, msg)
		c.NonTrivial()
		P := conv.Point(pub.Compress())
		if P.X.Cmp(pub.X) != 0 || P.Y.Cmp(pub.Y) != 0 {
			c.Fatalf("the key is read as %v, want %v", P, pub)
		}
		for i := 0; i < 2; i++ {
			var s secp256k1zkp.Signature
			c.Must("signing", func() { s = secp256k1zkp.SignMessage(*P, *new(big.Int).Set(x), msg) })
			enc := s.Bytes()
			c.Note("signature %x", enc)
			if !ref.Verify(pub, msg, enc) {
				c.Fatalf("the signature is not valid once it is sent")
			}
			var dec secp256k1zkp.Signature
			c.Must("decoding", func() { dec = secp256k1zkp.DecodeSignature(enc) })
			if dec.Bytes() != enc || dec.S.Cmp(&s.S) != 0 || !dec.R.Equals(&s.R) {
				c.Fatalf("the signature comes back as %v", dec)
			}
			if !secp256k1zkp.VerifySignature(*P, msg, s) || !secp256k1zkp.VerifySignature(*P, msg, dec) {
				c.Fatalf("the signature doesn't verify")
			}
			bad := msg
			bad[rapid.IntRange(0, 31).Draw(c.T, "byte")] ^= 1 << rapid.IntRange(0, 7).Draw(c.T, "bit")
			if secp256k1zkp.VerifySignature(*P, bad, dec) {
				c.Fatalf("it verifies for another message")
			}
			if secp256k1zkp.VerifySignature(*conv.Point(pub.Neg().Compress()), msg, dec) {
				c.Fatalf("it verifies for another key")
			}
		}
	})
	p.Part("message", kit.Budget{Quick: 20000, Thorough: 400000, Shards: 4}, func(c *kit.Case) {
		fee, lock := rapid.Uint64().Draw(c.T, "fee"), rapid.Uint64().Draw(c.T, "lock")
		c.Note("fee %d lock height %d", fee, lock)
		c.NonTrivial()
		if m := secp256k1zkp.ComputeMessage(fee, lock); m != ref.KernelMessage(fee, lock) {
			c.Fatalf("message %x, want %x", m, ref.KernelMessage(fee, lock))
		}
	})
	// kernels and signatures of the real network
	p.Part("network", kit.Budget{Quick: 24, Thorough: 400, Shards: 8}, func(c *kit.Case) {
		b := data.Testnet4Block()
		k := b.Kernels[rapid.IntRange(0, len(b.Kernels)-1).Draw(c.T, "kernel")]
		c.Note("kernel %+v", k)
		c.NonTrivial()
		if err := validate(c, k); err != nil {
			c.Fatalf("rejected: %v", err)
		}
		k.Fee++
		if err := validate(c, k); err == nil {
			c.Fatalf("accepted with another fee")
		}
	})
}

func ec(p *bulletproofs.Point) ref.EC {
	if p.X.Sign() == 0 && p.Y.Sign() == 0 {
		return ref.EC{}
	}
	return ref.EC{X: p.X, Y: p.Y}
}

var two256 = new(big.Int).Lsh(big.NewInt(1), 256)

// TestC14: Pedersen commitments.
func TestC14(t *testing.T) {
	p := kit.New(t, "C14", "two openings with a sum that is no multiple of the group order",
		"the reference curve arithmetic is right")
	scalar := func(c *kit.Case, label string) *big.Int {
		if rapid.IntRange(0, 5).Draw(c.T, label+"Zero") == 5 {
			return new(big.Int)
		}
		x := gen.Scalar(c.T, label)
		if rapid.IntRange(0, 4).Draw(c.T, label+"Large") == 4 { // any 256 bits will do
			if rapid.Bool().Draw(c.T, label+"Top") {
				x.Sub(two256, x)
			} else if x.Add(x, ref.N); x.Cmp(two256) >= 0 {
				x.Sub(x, ref.N)
			}
		}
		return x
	}
	value := func(c *kit.Case, label string) *big.Int {
		return new(big.Int).SetUint64(rapid.OneOf(rapid.Uint64(), rapid.Uint64Range(0, 3), rapid.Just(^uint64(0))).Draw(c.T, label))
	}
	commit := func(c *kit.Case, r, v *big.Int) ref.EC {
		var p *bulletproofs.Point
		r0, v0 := new(big.Int).Set(r), new(big.Int).Set(v)
		c.Must("committing", func() { p = secp256k1zkp.CommitValue(r, v) })
		if r.Cmp(r0) != 0 || v.Cmp(v0) != 0 {
			c.Fatalf("the opening was changed")
		}
		return ec(p)
	}
	p.Part("openings", kit.Budget{Quick: 500, Thorough: 16000, Shards: 8}, func(c *kit.Case) {
		r1, r2 := scalar(c, "blind1"), scalar(c, "blind2")
		v1, v2 := value(c, "value1"), value(c, "value2")
		if rapid.IntRange(0, 3).Draw(c.T, "cancel") == 3 {
			r2 = new(big.Int).Sub(ref.N, r1)
			r2.Mod(r2, ref.N)
		}
		c.Note("blinds %x %x values %d %d", r1, r2, v1, v2)
		a, b := commit(c, r1, v1), commit(c, r2, v2)
		for _, x := range []struct {
			got  ref.EC
			r, v *big.Int
		}{{a, r1, v1}, {b, r2, v2}} {
			if want := ref.G.Mul(x.r).Add(ref.H.Mul(x.v)); !x.got.Equal(want) {
				c.Fatalf("commitment %v, want %v", x.got, want)
			}
		}
		r, v := new(big.Int).Add(r1, r2), new(big.Int).Add(v1, v2)
		r.Mod(r, ref.N)
		if r.Sign() != 0 || v.Sign() != 0 {
			c.NonTrivial()
		}
		if sum := commit(c, r, v); !sum.Equal(a.Add(b)) {
			c.Fatalf("the sum of the commitments isn't the commitment to the sum")
		}
		if d := new(big.Int).Sub(r1, r2); a.Equal(b) != (d.Mod(d, ref.N).Sign() == 0 && v1.Cmp(v2) == 0) {
			c.Fatalf("commitments are equal: %v", a.Equal(b))
		}
		// what is sent of it
		if !a.Inf() {
			pt := secp256k1zkp.CommitValue(r1, v1)
			want := a.Compress()
			if !bytes.Equal(pt.Bytes(), want[:]) {
				c.Fatalf("serialised as %x, want %x", pt.Bytes(), want)
			}
			o := consensus.Output{Commit: pt}
			if b := o.BytesWithoutProof(); !bytes.Equal(b, append([]byte{0}, want[:]...)) {
				c.Fatalf("output bytes %x, want 00%x", b, want)
			}
		}
	})
	// openings of outputs with range proofs of the proof library
	outs := data.Outputs()
	p.Part("outputs", kit.Budget{Quick: 60, Thorough: 400, Shards: 4}, func(c *kit.Case) {
		o := outs[rapid.IntRange(0, len(outs)-1).Draw(c.T, "output")]
		if o.OffCurve {
			return
		}
		c.Note("blind %x value %d", o.Blind, o.Value)
		c.NonTrivial()
		got := commit(c, o.Blind, o.Value)
		if got.Compress() != o.Commit {
			c.Fatalf("commitment %x, want %x", got.Compress(), o.Commit)
		}
	})
	p.Part("generators", kit.Budget{Quick: 2, Thorough: 2}, func(c *kit.Case) {
		c.Note("G %v H %v", secp256k1zkp.G, secp256k1zkp.H)
		rapid.Bool().Draw(c.T, "any")
		if !ec(&secp256k1zkp.G).Equal(ref.G) || !ec(&secp256k1zkp.H).Equal(ref.H) {
			c.Fatalf("other generators")
		}
	})
}
