package ref

import (
	"encoding/binary"
	"math/bits"
	"sort"

	"golang.org/x/crypto/blake2b"
)

// Keys derives siphash keys from a header.
func Keys(key []byte) (v [4]uint64) {
	h := blake2b.Sum256(key)
	for i := range v {
		v[i] = binary.LittleEndian.Uint64(h[8*i:])
	}
	return
}

func rounds(v [4]uint64, n int) [4]uint64 {
	a, b, c, d := v[0], v[1], v[2], v[3]
	for ; n > 0; n-- {
		a += b
		c += d
		b = bits.RotateLeft64(b, 13) ^ a
		d = bits.RotateLeft64(d, 16) ^ c
		a = bits.RotateLeft64(a, 32)
		c += b
		a += d
		b = bits.RotateLeft64(b, 17) ^ c
		d = bits.RotateLeft64(d, 21) ^ a
		c = bits.RotateLeft64(c, 32)
	}
	return [4]uint64{a, b, c, d}
}

func absorb(v [4]uint64, m uint64) [4]uint64 {
	v[3] ^= m
	v = rounds(v, 2)
	v[0] ^= m
	v[2] ^= 0xff
	return rounds(v, 4)
}

func squeeze(v [4]uint64) uint64 { return v[0] ^ v[1] ^ v[2] ^ v[3] }

// CuckooEdge is an edge of the original graph.
func CuckooEdge(v [4]uint64, nonce uint64, sizeShift uint8) (uint64, uint64) {
	mask := uint64(1)<<(sizeShift-1) - 1
	return squeeze(absorb(v, 2*nonce)) & mask, squeeze(absorb(v, 2*nonce+1)) & mask
}

// CuckarooEdges returns the edges of the nonces 64*block..64*block+63.
func CuckarooEdges(v [4]uint64, block uint64, edgeBits uint8) (e [64][2]uint64) {
	mask := uint64(1)<<edgeBits - 1
	var h [64]uint64
	for i := range h {
		v = absorb(v, 64*block+uint64(i))
		h[i] = squeeze(v)
	}
	for i := range h {
		x := h[i]
		if i != 63 {
			x ^= h[63]
		}
		e[i] = [2]uint64{x & mask, x >> 32 & mask}
	}
	return
}

// SimpleCycle tells whether the edges of a bipartite graph are one cycle that
// passes each of its vertices once.
func SimpleCycle(e [][2]uint64) bool {
	if len(e) == 0 {
		return false
	}
	at := [2]map[uint64][]int{{}, {}}
	for i, x := range e {
		at[0][x[0]] = append(at[0][x[0]], i)
		at[1][x[1]] = append(at[1][x[1]], i)
	}
	for s := range at {
		for _, l := range at[s] {
			if len(l) != 2 {
				return false
			}
		}
	}
	// one component
	seen := map[int]bool{0: true}
	for todo := []int{0}; len(todo) > 0; {
		i := todo[0]
		todo = todo[1:]
		for s := range at {
			for _, j := range at[s][e[i][s]] {
				if !seen[j] {
					seen[j] = true
					todo = append(todo, j)
				}
			}
		}
	}
	return len(seen) == len(e)
}

// Cycles finds simple cycles of even length between lo and hi in the graph, as
// ascending lists of edge indices, at most limit of them.
func Cycles(e [][2]uint64, lo, hi, limit int) (out [][]int) {
	at := [2]map[uint64][]int{{}, {}}
	for i, x := range e {
		at[0][x[0]] = append(at[0][x[0]], i)
		at[1][x[1]] = append(at[1][x[1]], i)
	}
	steps := 0
	for start := range e {
		usedV := [2]map[uint64]bool{{e[start][0]: true}, {}}
		path := []int{start}
		var walk func(side int)
		walk = func(side int) {
			if steps++; len(out) >= limit || steps > 5000 {
				return
			}
			v := e[path[len(path)-1]][side]
			if usedV[side][v] {
				if side == 0 && v == e[start][0] && len(path) >= lo {
					c := append([]int{}, path...)
					sort.Ints(c)
					out = append(out, c)
				}
				return
			}
			if len(path) >= hi {
				return
			}
			usedV[side][v] = true
			for _, j := range at[side][v] {
				if j > start { // start is the least edge
					path = append(path, j)
					walk(1 - side)
					path = path[:len(path)-1]
				}
			}
			usedV[side][v] = false
		}
		walk(1)
	}
	return
}

// ClosedTrails finds edge sets that are closed walks without being simple
// cycles: two cycles that share one vertex.
func ClosedTrails(e [][2]uint64, cycles [][]int) (out [][]int) {
	for a := range cycles {
		for b := a + 1; b < len(cycles); b++ {
			used := map[int]bool{}
			var vs [2]map[uint64]bool
			vs[0], vs[1] = map[uint64]bool{}, map[uint64]bool{}
			for _, i := range cycles[a] {
				used[i] = true
				vs[0][e[i][0]], vs[1][e[i][1]] = true, true
			}
			disjoint, shared := true, false
			for _, i := range cycles[b] {
				disjoint = disjoint && !used[i]
				shared = shared || vs[0][e[i][0]] || vs[1][e[i][1]]
			}
			if disjoint && shared {
				c := append(append([]int{}, cycles[a]...), cycles[b]...)
				sort.Ints(c)
				out = append(out, c)
			}
		}
	}
	return
}

// DisjointPairs finds unions of two cycles that share no vertex.
func DisjointPairs(e [][2]uint64, cycles [][]int) (out [][]int) {
	for a := range cycles {
		for b := a + 1; b < len(cycles); b++ {
			var vs [2]map[uint64]bool
			vs[0], vs[1] = map[uint64]bool{}, map[uint64]bool{}
			for _, i := range cycles[a] {
				vs[0][e[i][0]], vs[1][e[i][1]] = true, true
			}
			ok := true
			for _, i := range cycles[b] {
				ok = ok && !vs[0][e[i][0]] && !vs[1][e[i][1]]
			}
			if ok {
				c := append(append([]int{}, cycles[a]...), cycles[b]...)
				sort.Ints(c)
				out = append(out, c)
			}
		}
	}
	return
}

// Sip is the hash of a list of words as the graphs use it.
func Sip(v [4]uint64, words []uint64) uint64 {
	for _, w := range words {
		v = absorb(v, w)
	}
	return squeeze(v)
}

// SipHash24 is the keyed hash of a byte string.
func SipHash24(k0, k1 uint64, p []byte) uint64 {
	v := [4]uint64{k0 ^ 0x736f6d6570736575, k1 ^ 0x646f72616e646f6d, k0 ^ 0x6c7967656e657261, k1 ^ 0x7465646279746573}
	n := len(p)
	for {
		var w [8]byte
		last := len(p) < 8
		copy(w[:], p)
		if last {
			w[7] = byte(n)
		} else {
			p = p[8:]
		}
		m := binary.LittleEndian.Uint64(w[:])
		v[3] ^= m
		v = rounds(v, 2)
		v[0] ^= m
		if last {
			break
		}
	}
	v[2] ^= 0xff
	return squeeze(rounds(v, 4))
}
