package ref

import (
	"crypto/sha256"
	"encoding/binary"
	"math/big"
)

// A textbook affine secp256k1, slow and plain.

func hexInt(s string) *big.Int { n, _ := new(big.Int).SetString(s, 16); return n }

var (
	P = hexInt("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f")
	N = hexInt("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141")
	G = EC{hexInt("79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798"),
		hexInt("483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8")}
	// H is grin's value generator: the curve point with this X.
	H = EC{hexInt("50929b74c1a04954b78b4b6035e97a5e078a5a0f28ec96d547bfee9ace803ac0"),
		hexInt("31d3c6863973926e049e637cb1b5f40a36dac28af1766968c30c2313f3a38904")}
	sqrtExp = new(big.Int).Rsh(new(big.Int).Add(P, big.NewInt(1)), 2)
)

// EC is a point; X == nil is the point at infinity.
type EC struct{ X, Y *big.Int }

func (a EC) Inf() bool { return a.X == nil }

func (a EC) Equal(b EC) bool {
	if a.Inf() || b.Inf() {
		return a.Inf() == b.Inf()
	}
	return a.X.Cmp(b.X) == 0 && a.Y.Cmp(b.Y) == 0
}

func mod(x *big.Int) *big.Int { return x.Mod(x, P) }

func (a EC) Neg() EC {
	if a.Inf() {
		return a
	}
	return EC{a.X, mod(new(big.Int).Neg(a.Y))}
}

func (a EC) Add(b EC) EC {
	if a.Inf() {
		return b
	}
	if b.Inf() {
		return a
	}
	var l *big.Int
	if a.X.Cmp(b.X) == 0 {
		if new(big.Int).Mod(new(big.Int).Add(a.Y, b.Y), P).Sign() == 0 {
			return EC{}
		}
		l = new(big.Int).Mul(a.X, a.X)
		l.Mul(l, big.NewInt(3))
		l.Mul(l, new(big.Int).ModInverse(new(big.Int).Lsh(a.Y, 1), P))
	} else {
		l = new(big.Int).Sub(b.Y, a.Y)
		d := mod(new(big.Int).Sub(b.X, a.X))
		l.Mul(l, d.ModInverse(d, P))
	}
	mod(l)
	x := new(big.Int).Mul(l, l)
	x.Sub(x, a.X)
	x.Sub(x, b.X)
	mod(x)
	y := new(big.Int).Sub(a.X, x)
	y.Mul(y, l)
	y.Sub(y, a.Y)
	return EC{x, mod(y)}
}

func (a EC) Mul(k *big.Int) EC {
	k = new(big.Int).Mod(k, N)
	var r EC
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = r.Add(r)
		if k.Bit(i) == 1 {
			r = r.Add(a)
		}
	}
	return r
}

// Square tells whether v has a square root modulo P.
func Square(v *big.Int) bool { return big.Jacobi(new(big.Int).Mod(v, P), P) >= 0 }

// LiftX returns the point with the given X whose Y is a square, if X is on the
// curve.
func LiftX(x *big.Int) (EC, bool) {
	if x.Cmp(P) >= 0 {
		return EC{}, false
	}
	c := new(big.Int).Exp(x, big.NewInt(3), P)
	c.Add(c, big.NewInt(7))
	mod(c)
	if !Square(c) {
		return EC{}, false
	}
	return EC{x, new(big.Int).Exp(c, sqrtExp, P)}, true
}

// Compress serialises a point as a commitment: 8, or 9 when Y is no square.
func (a EC) Compress() (p Point) {
	p[0] = 8
	if !Square(a.Y) {
		p[0] = 9
	}
	a.X.FillBytes(p[1:])
	return
}

// Decompress is its inverse. It fails for encodings that are no curve point.
func Decompress(p Point) (EC, bool) {
	a, ok := LiftX(new(big.Int).SetBytes(p[1:]))
	if !ok || p[0]&^1 != 8 {
		return EC{}, false
	}
	if p[0] == 9 {
		a = a.Neg()
	}
	return a, true
}

// sec1 is the usual compressed public key.
func (a EC) sec1() (b [33]byte) {
	b[0] = 2 + byte(a.Y.Bit(0))
	a.X.FillBytes(b[1:])
	return
}

// KernelMessage is what a kernel signs.
func KernelMessage(fee, lock uint64) (m [32]byte) {
	binary.BigEndian.PutUint64(m[16:], fee)
	binary.BigEndian.PutUint64(m[24:], lock)
	return
}

func challenge(rx []byte, pub EC, msg [32]byte) *big.Int {
	k := pub.sec1()
	h := sha256.New()
	h.Write(rx)
	h.Write(k[:])
	h.Write(msg[:])
	return new(big.Int).SetBytes(h.Sum(nil))
}

// Sign makes a signature with the nonce k, which is negated when R.Y is no
// square, unless raw.
func Sign(x, k *big.Int, msg [32]byte, raw bool) (sig [64]byte) {
	R := G.Mul(k)
	if !raw && !Square(R.Y) {
		k = new(big.Int).Sub(N, k)
		R = G.Mul(k)
	}
	R.X.FillBytes(sig[:32])
	e := challenge(sig[:32], G.Mul(x), msg)
	s := new(big.Int).Mul(e, x)
	s.Add(s, k)
	s.Mod(s, N)
	s.FillBytes(sig[32:])
	return
}

// Verify checks a signature: s*G == R + e*P.
func Verify(pub EC, msg [32]byte, sig [64]byte) bool {
	if pub.Inf() {
		return false
	}
	R, ok := LiftX(new(big.Int).SetBytes(sig[:32]))
	if !ok {
		return false
	}
	e := challenge(sig[:32], pub, msg)
	l := G.Mul(new(big.Int).SetBytes(sig[32:]))
	return l.Equal(R.Add(pub.Mul(e)))
}

// Valid tells whether the kernel's signature verifies.
func (k *Kernel) Valid() bool {
	pub, ok := Decompress(k.Excess)
	return ok && Verify(pub, KernelMessage(k.Fee, k.LockHeight), k.Sig)
}

// NewKernel signs a kernel with the key x and nonce k.
func NewKernel(features uint8, fee, lock uint64, x, k *big.Int) Kernel {
	return Kernel{Features: features, Fee: fee, LockHeight: lock, Excess: G.Mul(x).Compress(),
		Sig: Sign(x, k, KernelMessage(fee, lock), false)}
}
