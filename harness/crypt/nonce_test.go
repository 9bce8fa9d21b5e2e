package crypt

import (
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"strings"
	"sync"
	"testing"

	"github.com/dblokhin/gringo/secp256k1zkp"
	"pgregory.net/rapid"

	"verif/harness/conv"
	"verif/harness/gen"
	"verif/harness/kit"
	"verif/harness/ref"
)

// signed is a signature whose key is known, and thereby its nonce.
type signed struct {
	key, nonce *big.Int
	msg        [32]byte
	sig        [64]byte
	known      [][]byte // what everybody who sees the signature can compute
}

func pubBytes(pub ref.EC) []byte {
	b := make([]byte, 33)
	b[0] = 2 + byte(pub.Y.Bit(0))
	pub.X.FillBytes(b[1:])
	return b
}

// sign signs and works the nonce out of s = k + e x.
func sign(x *big.Int, msg [32]byte) (out signed, err error) {
	pub := ref.G.Mul(x)
	s := secp256k1zkp.SignMessage(*conv.Point(pub.Compress()), *new(big.Int).Set(x), msg)
	out = signed{key: x, msg: msg, sig: s.Bytes()}
	if !ref.Verify(pub, msg, out.sig) {
		return out, fmt.Errorf("the signature %x is wrong", out.sig)
	}
	h := sha256.New()
	h.Write(out.sig[:32])
	h.Write(pubBytes(pub))
	h.Write(msg[:])
	e := new(big.Int).SetBytes(h.Sum(nil))
	k := new(big.Int).SetBytes(out.sig[32:])
	k.Sub(k, e.Mul(e, x))
	k.Mod(k, ref.N)
	if R := ref.G.Mul(k); R.Inf() || new(big.Int).SetBytes(out.sig[:32]).Cmp(R.X) != 0 {
		return out, fmt.Errorf("the signature %x isn't k + e x", out.sig)
	}
	out.nonce = k
	sum := func(l ...[]byte) []byte {
		h := sha256.New()
		for _, b := range l {
			h.Write(b)
		}
		return h.Sum(nil)
	}
	p := pubBytes(pub)
	out.known = [][]byte{msg[:], sum(msg[:]), sum(p), sum(p, msg[:]), sum(msg[:], p), p[1:], sum(p[1:]), sum(p[1:], msg[:]), sum(msg[:], p[1:])}
	return out, nil
}

var least = new(big.Int).Lsh(big.NewInt(1), 160)

// small tells whether x mod N is near zero: for nonces that are random it has
// a chance of 2^-95.
func small(x *big.Int) bool {
	x = new(big.Int).Mod(x, ref.N)
	y := new(big.Int).Sub(ref.N, x)
	return x.Cmp(least) < 0 || y.Cmp(least) < 0
}

// related tells what is wrong with the nonces of two signatures.
func related(a, b signed) string {
	if a.key.Cmp(b.key) == 0 && a.msg == b.msg {
		return "" // nothing is lost if it is the same
	}
	if small(new(big.Int).Sub(a.nonce, b.nonce)) || small(new(big.Int).Add(a.nonce, b.nonce)) {
		return "their nonces are nearly the same"
	}
	inv := new(big.Int).ModInverse(b.nonce, ref.N)
	if r := inv.Mul(inv, a.nonce); small(r) {
		return "one nonce is a small multiple of the other"
	}
	return ""
}

// TestSignChild signs in a process of its own.
func TestSignChild(t *testing.T) {
	seed := os.Getenv("VERIF_CHILD")
	if seed == "" {
		t.Skip()
	}
	for i := 0; i < 24; i++ {
		x := new(big.Int).SetBytes(gen.Expand(uint64(i), 31))
		var msg [32]byte
		copy(msg[:], seed)
		msg[31] = byte(i)
		x.Add(x, new(big.Int).SetBytes([]byte(seed)))
		x.Add(x, big.NewInt(1))
		s, err := sign(x, msg)
		if err != nil {
			fmt.Println("WRONG", err)
			return
		}
		fmt.Printf("SIGNED %x %x %x\n", s.key, s.msg, s.sig)
		fmt.Printf("RANDOM %x\n", secp256k1zkp.RandomBytes())
	}
}

// TestC32: the nonces of signatures.
func TestC32(t *testing.T) {
	p := kit.New(t, "C32", "signatures of at least two different messages or keys",
		"randomness that is predictable in a way that the relations below don't show isn't noticed")

	p.Part("relations", kit.Budget{Quick: 160, Thorough: 6000, Shards: 8}, func(c *kit.Case) {
		x := gen.Scalar(c.T, "key")
		var msg [32]byte
		copy(msg[:], gen.Bytes(c.T, "message", 32))
		n := rapid.IntRange(2, 8).Draw(c.T, "signatures")
		keys, all := []*big.Int{x}, [][32]byte{msg}
		for i := 1; i < n; i++ {
			k, m := keys[i-1], all[i-1]
			switch rapid.IntRange(0, 4).Draw(c.T, "other") {
			case 0:
				k = gen.Scalar(c.T, "key")
			case 1:
				k = new(big.Int).Sub(ref.N, k)
			case 2: // the same again
			default:
				m[rapid.IntRange(0, 31).Draw(c.T, "byte")] ^= 1 << rapid.IntRange(0, 7).Draw(c.T, "bit")
			}
			keys, all = append(keys, k), append(all, m)
		}
		concurrent := rapid.Bool().Draw(c.T, "concurrently")
		out, errs := make([]signed, n), make([]error, n)
		o := kit.Do(func() {
			var wg sync.WaitGroup
			for i := range out {
				if !concurrent {
					out[i], errs[i] = sign(keys[i], all[i])
					continue
				}
				wg.Add(1)
				go func() {
					defer wg.Done()
					out[i], errs[i] = sign(keys[i], all[i])
				}()
			}
			wg.Wait()
		})
		if !o.OK() {
			c.Fatalf("signing: %v", o)
		}
		for i, a := range out {
			c.Note("key %x message %x signature %x", keys[i], all[i], a.sig)
			if errs[i] != nil {
				c.Fatalf("%v", errs[i])
			}
			if i > 0 && (all[i] != all[0] || keys[i].Cmp(keys[0]) != 0) {
				c.NonTrivial()
			}
			// shorter than it should be, or the key itself
			if small(a.nonce) || small(new(big.Int).Sub(a.nonce, a.key)) || small(new(big.Int).Add(a.nonce, a.key)) {
				c.Fatalf("the nonce of signature %d is %x", i, a.nonce)
			}
			for j, b := range a.known {
				v := new(big.Int).SetBytes(b)
				if small(new(big.Int).Sub(a.nonce, v)) || small(new(big.Int).Add(a.nonce, v)) {
					c.Fatalf("everybody knows the nonce of signature %d (%d)", i, j)
				}
			}
			for j, b := range out[:i] {
				if what := related(a, b); what != "" {
					c.Fatalf("signatures %d and %d: %s, which gives away the key", j, i, what)
				}
			}
		}
	})

	p.Part("spread", kit.Budget{Quick: 4, Thorough: 40, Shards: 8}, func(c *kit.Case) {
		n := 1000
		x := gen.Scalar(c.T, "key")
		source := rapid.SampledFrom([]string{"signatures", "signatures", "RandomInt", "RandomBytes"}).Draw(c.T, "source")
		c.Note("%d %s, key %x", n, source, x)
		c.NonTrivial()
		if source != "signatures" {
			n = 20000
		}
		var ones [256]int
		var seen [8]map[uint64]bool
		for i := range seen {
			seen[i] = map[uint64]bool{}
		}
		for i := 0; i < n; i++ {
			k := new(big.Int)
			c.Must(source, func() {
				switch source {
				case "RandomInt":
					k = secp256k1zkp.RandomInt()
				case "RandomBytes":
					b := secp256k1zkp.RandomBytes()
					k.SetBytes(b[:])
				default:
					s, err := sign(x, sha256.Sum256([]byte(fmt.Sprint(i))))
					if err != nil {
						c.Fatalf("%v", err)
					}
					k = s.nonce
				}
			})
			if source == "RandomInt" && k.Cmp(ref.N) > 0 {
				c.Fatalf("the scalar %x is too large", k)
			}
			for b := range ones {
				ones[b] += int(k.Bit(b))
			}
			// 32 bits each would collide among so many; 48 and more do not
			var buf [32]byte
			k.FillBytes(buf[:])
			for b := range seen[:6] {
				var v uint64
				for _, y := range buf[4*b : 4*b+8] {
					v = v<<8 | uint64(y)
				}
				// the first bits of nonces are as good as random
				if seen[b][v] {
					c.Fatalf("8 bytes at %d of %d %s occur twice: %x", 4*b, n, source, v)
				}
				seen[b][v] = true
			}
		}
		// eight standard deviations
		for b, k := range ones {
			d := float64(2*k - n)
			if d*d > 64*float64(n) {
				c.Fatalf("bit %d of %d %s is set in %d", b, n, source, k)
			}
		}
	})

	// many at once
	p.Part("crowd", kit.Budget{Quick: 8, Thorough: 80, Shards: 1, Journal: true}, func(c *kit.Case) {
		workers := rapid.IntRange(2, 16).Draw(c.T, "workers")
		source := rapid.SampledFrom([]string{"RandomInt", "RandomBytes", "RandomBytes"}).Draw(c.T, "source")
		each := rapid.IntRange(1000, 20000).Draw(c.T, "numbers")
		c.Note("%d workers take %d %s each", workers, each, source)
		c.NonTrivial()
		out, bad := make([][][32]byte, workers), make([]kit.Outcome, workers)
		var wg sync.WaitGroup
		start := make(chan struct{})
		for w := range out {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				bad[w] = kit.Do(func() {
					for i := 0; i < each; i++ {
						var b [32]byte
						if source == "RandomInt" {
							secp256k1zkp.RandomInt().FillBytes(b[:])
						} else {
							b = secp256k1zkp.RandomBytes()
						}
						out[w] = append(out[w], b)
					}
				})
			}()
		}
		close(start)
		c.Must(source, wg.Wait)
		for _, o := range bad {
			if !o.OK() {
				c.Fatalf("%s: %v", source, o)
			}
		}
		seen := map[[24]byte]bool{}
		for _, l := range out {
			for _, b := range l {
				// neither a whole one nor parts of it occur again
				for _, k := range [][]byte{b[:24], b[8:]} {
					if k := [24]byte(k); seen[k] {
						c.Fatalf("%x occurs twice among %d %s", k, workers*each, source)
					} else {
						seen[k] = true
					}
				}
			}
		}
	})

	p.Part("processes", kit.Budget{Quick: 3, Thorough: 40, Shards: 3}, func(c *kit.Case) {
		var all []signed
		random := map[string]bool{}
		for i, n := 0, rapid.IntRange(2, 4).Draw(c.T, "processes"); i < n; i++ {
			cmd := exec.Command(os.Args[0], "-test.run=^TestSignChild$", "-test.count=1", "-test.v=false")
			cmd.Env = append(os.Environ(), fmt.Sprintf("VERIF_CHILD=child%d", i))
			b, err := cmd.CombinedOutput()
			if err != nil {
				c.Fatalf("process %d: %v\n%s", i, err, b)
			}
			for _, l := range strings.Split(string(b), "\n") {
				f := strings.Fields(l)
				if len(f) == 2 && f[0] == "RANDOM" {
					if random[f[1]] {
						c.Fatalf("the random bytes %s occur in two processes", f[1])
					}
					random[f[1]] = true
				}
				if len(f) > 0 && f[0] == "WRONG" {
					c.Fatalf("process %d: %s", i, l)
				}
				if len(f) != 4 || f[0] != "SIGNED" {
					continue
				}
				var s signed
				s.key, _ = new(big.Int).SetString(f[1], 16)
				m, _ := hex.DecodeString(f[2])
				copy(s.msg[:], m)
				m, _ = hex.DecodeString(f[3])
				copy(s.sig[:], m)
				pub := ref.G.Mul(s.key)
				e := sha256.New()
				e.Write(s.sig[:32])
				e.Write(pubBytes(pub))
				e.Write(s.msg[:])
				k := new(big.Int).SetBytes(e.Sum(nil))
				k.Sub(new(big.Int).SetBytes(s.sig[32:]), k.Mul(k, s.key))
				s.nonce = k.Mod(k, ref.N)
				for _, a := range all {
					if what := related(a, s); what != "" {
						c.Fatalf("%s: signatures %x and %x, of different processes or messages", what, a.sig, s.sig)
					}
				}
				all = append(all, s)
			}
		}
		c.Note("%d signatures", len(all))
		if len(all) < 48 {
			c.Fatalf("harness: %d signatures", len(all))
		}
		c.NonTrivial(all[0].sig[:])
	})
}
