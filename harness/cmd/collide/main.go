// collide finds items of blocks whose hashes start with the same 8 bytes
// (inputs, kernels) or 5 bytes (outputs). It prints what harness/gen/alike.go
// lists.
package main

import (
	"encoding/binary"
	"fmt"
	"runtime"
	"sync"

	"golang.org/x/crypto/blake2b"

	"verif/harness/gen"
	"verif/harness/ref"
)

func bytesOf(kind int, n uint64) []byte {
	if kind == 0 {
		i := gen.AlikeInput(n)
		return i.Bytes()
	}
	k := gen.AlikeKernel(n)
	return k.Bytes()
}

func main() {
	for kind := 0; kind < 2; kind++ {
		template := bytesOf(kind, 0x0102030405060708)
		at := -1
		for i := 0; i+8 <= len(template); i++ {
			if binary.BigEndian.Uint64(template[i:]) == 0x0102030405060708 {
				at = i
			}
		}
		for pairs := 0; pairs < 2; pairs++ {
			a, b := rho(template, at, uint64(pairs))
			fmt.Println(kind, a, b)
		}
	}
	// outputs
	seen := map[uint64]int{}
	p := ref.G
	found := 0
	for n := 1; found < 4; n++ {
		c := p.Compress()
		h := blake2b.Sum256(append([]byte{0}, c[:]...))
		k := uint64(binary.BigEndian.Uint32(h[:]))<<8 | uint64(h[4])
		if m, ok := seen[k]; ok {
			fmt.Println("outputs", m, n)
			found++
		}
		seen[k] = n
		p = p.Add(ref.G)
	}
}

func rho(template []byte, at int, salt uint64) (uint64, uint64) {
	const mask = 1<<18 - 1
	var mu sync.Mutex
	start := map[uint64]uint64{}
	result := make(chan [2]uint64, 100)
	stop := make(chan bool)
	f := func(buf []byte, x uint64) uint64 {
		binary.BigEndian.PutUint64(buf[at:], x)
		h := blake2b.Sum256(buf)
		return binary.BigEndian.Uint64(h[:])
	}
	for w := 0; w < runtime.NumCPU()-1; w++ {
		go func(w int) {
			buf := append([]byte{}, template...)
			for i := uint64(0); ; i++ {
				select {
				case <-stop:
					return
				default:
				}
				s := (salt+1)<<60 | uint64(w)<<40 | i
				x := s
				n := 0
				for ; x&mask != 0 || n == 0; n++ {
					x = f(buf, x)
					if n > 40*mask {
						break
					}
				}
				mu.Lock()
				t, ok := start[x]
				start[x] = s
				mu.Unlock()
				if !ok || t == s {
					continue
				}
				// walk both
				var pa, pb []uint64
				for y := s; ; {
					pa = append(pa, y)
					y = f(buf, y)
					if y == x {
						pa = append(pa, y)
						break
					}
				}
				for y := t; ; {
					pb = append(pb, y)
					y = f(buf, y)
					if y == x {
						pb = append(pb, y)
						break
					}
				}
				for len(pa) > 0 && len(pb) > 0 && pa[len(pa)-1] == pb[len(pb)-1] {
					pa, pb = pa[:len(pa)-1], pb[:len(pb)-1]
				}
				if len(pa) > 0 && len(pb) > 0 {
					result <- [2]uint64{pa[len(pa)-1], pb[len(pb)-1]}
				}
			}
		}(w)
	}
	r := <-result
	close(stop)
	return r[0], r[1]
}
