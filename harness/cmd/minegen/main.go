// Command minegen mines the headers of data/mined.json with tools/miner. It was
// run once; the checks only read its output.
package main

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"os/exec"
	"strconv"

	"verif/harness/ref"
)

type entry struct {
	Name   string
	Header string // hex
	Parent string // hex of the parent header where the parent is not mined
}

var (
	out     = os.Args[1]
	miner   = os.Args[2]
	threads = os.Args[3]
	list    []entry
)

func find(name string) *entry {
	for i := range list {
		if list[i].Name == name {
			return &list[i]
		}
	}
	return nil
}

func fill(seed byte) (x [32]byte) {
	for i := range x {
		x[i] = seed*17 + byte(i)*29 + 3
	}
	return
}

func mine(name string, h ref.Header, parent *ref.Header, cycle int) ref.Header {
	if e := find(name); e != nil {
		b, _ := hex.DecodeString(e.Header)
		if cycle == 42 {
			h, err := ref.ParseHeader(&ref.Reader{B: b})
			if err != nil {
				panic(err)
			}
			return h
		}
		return h
	}
	h.Nonce = 0
	cmd := exec.Command(miner, strconv.Itoa(int(h.EdgeBits)), hex.EncodeToString(h.PrePow()), threads, "0", strconv.Itoa(cycle))
	cmd.Stderr = os.Stderr
	o, err := cmd.Output()
	if err != nil {
		panic(err)
	}
	var r struct {
		Nonce uint64
		Edges []uint32
	}
	if err := json.Unmarshal(o, &r); err != nil {
		panic(err)
	}
	h.Nonce, h.Edges = r.Nonce, r.Edges
	e := entry{Name: name, Header: hex.EncodeToString(h.Bytes())}
	if parent != nil {
		e.Parent = hex.EncodeToString(parent.Bytes())
	}
	list = append(list, e)
	b, _ := json.MarshalIndent(list, "", " ")
	os.WriteFile(out, b, 0644)
	fmt.Println("mined", name)
	return h
}

func main() {
	if b, err := os.ReadFile(out); err == nil {
		if err := json.Unmarshal(b, &list); err != nil {
			panic(err)
		}
	}
	base := func(seed byte) ref.Header {
		return ref.Header{Version: 1, Height: 1000 + uint64(seed), Time: 1540000000 + int64(seed)*60,
			Prev: fill(seed), PrevRoot: fill(seed + 1), UTXORoot: fill(seed + 2), ProofRoot: fill(seed + 3),
			KernelRoot: fill(seed + 4), Offset: fill(seed + 5), OutMMR: 1000 + uint64(seed), KerMMR: 500 + uint64(seed),
			TD: 30000 + uint64(seed), Scaling: 1, EdgeBits: 29}
	}
	with := func(seed byte, f func(*ref.Header)) ref.Header { h := base(seed); f(&h); return h }

	// cheap ones: graphs too small to count as work
	mine("small20", with(1, func(h *ref.Header) { h.EdgeBits = 20 }), nil, 42)
	mine("small24", with(2, func(h *ref.Header) { h.EdgeBits = 24 }), nil, 42)
	mine("small26", with(3, func(h *ref.Header) { h.EdgeBits = 26; h.Scaling = 5 }), nil, 42)
	mine("small28", with(4, func(h *ref.Header) { h.EdgeBits = 28 }), nil, 42)
	// other cycle lengths
	mine("cycle8", with(5, func(h *ref.Header) {}), nil, 8)
	mine("cycle12", with(6, func(h *ref.Header) {}), nil, 12)

	// a real chain on top of the testnet 4 genesis block
	var gen ref.Header
	gen.EdgeBits = 29
	gen.TD = (2 << 5) * 29 * 1000000
	gen.Edges = []uint32{
		0x46f3b4, 0x1135f8c, 0x1a1596f, 0x1e10f71, 0x41c03ea, 0x63fe8e7, 0x65af34f,
		0x73c16d3, 0x8216dc3, 0x9bc75d0, 0xae7d9ad, 0xc1cb12b, 0xc65e957, 0xf67a152,
		0xfac6559, 0x100c3d71, 0x11eea08b, 0x1225dfbb, 0x124d61a1, 0x132a14b4, 0x13f4ec38,
		0x1542d236, 0x155f2df0, 0x1577394e, 0x163c3513, 0x19349845, 0x19d46953, 0x19f65ed4,
		0x1a0411b9, 0x1a2fa039, 0x1a72a06c, 0x1b02ddd2, 0x1b594d59, 0x1b7bffd3, 0x1befe12e,
		0x1c82e4cd, 0x1d492478, 0x1de132a5, 0x1e578b3c, 0x1ed96855, 0x1f222896, 0x1fea0da6,
	}
	gen.Time = 1539806400
	if h := gen.Hash(); h[0] != 0x06 || h[1] != 0x44 {
		panic("genesis hash")
	}
	chain := func(i int, prev ref.Header, scaling uint32) ref.Header {
		h := base(byte(100 + i))
		h.Height = uint64(i)
		h.Time = prev.Time + 60
		h.Prev = prev.Hash()
		h.TD = prev.TD + prev.PowDifficulty()
		h.Scaling = scaling
		return mine(fmt.Sprintf("chain%d", i), h, nil, 42)
	}
	c1 := chain(1, gen, 1)
	c2 := chain(2, c1, 1856)
	c3 := chain(3, c2, 0)

	// children of made-up parents, whose proof of work reached a difficulty > 0
	parent := func(seed byte, height uint64, want func(uint64) bool) ref.Header {
		p := base(seed)
		p.Height = height
		for n := uint32(1); ; n++ {
			p.Edges = nil
			for i := uint32(0); i < 42; i++ {
				p.Edges = append(p.Edges, n+i*1000)
			}
			if want(p.PowDifficulty()) {
				return p
			}
		}
	}
	child := func(name string, seed byte, height uint64, want func(uint64) bool, mod func(*ref.Header)) {
		p := parent(seed, height-1, want)
		h := base(seed + 1)
		h.Height, h.Prev, h.Time, h.TD = height, p.Hash(), p.Time+60, p.TD+p.PowDifficulty()
		if mod != nil {
			mod(&h)
		}
		mine(name, h, &p, 42)
	}
	child("child200", 30, 200, func(d uint64) bool { return d > 3 && d < 1000 }, nil)
	mine("futureYear2100", with(7, func(h *ref.Header) { h.Time = 4102444800 }), nil, 42)
	mine("v2low", with(8, func(h *ref.Header) { h.Version = 2; h.Height = 94999 }), nil, 42)
	mine("v2ok", with(9, func(h *ref.Header) { h.Version = 2; h.Height = 95000 }), nil, 42)
	mine("v3ok", with(11, func(h *ref.Header) { h.Version = 3; h.Height = 250000 }), nil, 42)
	mine("v3high", with(12, func(h *ref.Header) { h.Version = 3; h.Height = 500000 }), nil, 42)
	mine("scaling2_30", with(13, func(h *ref.Header) { h.EdgeBits = 30; h.Scaling = 2 }), nil, 42)
	mine("ok30", with(14, func(h *ref.Header) { h.EdgeBits = 30; h.Scaling = 1 }), nil, 42)
	child("child40", 40, 40, func(d uint64) bool { return d == 1 }, nil)
	c4 := chain(4, c3, 7)
	mine("v1high", with(10, func(h *ref.Header) { h.Version = 1; h.Height = 95000 }), nil, 42)
	mine("v2high", with(16, func(h *ref.Header) { h.Version = 2; h.Height = 250000 }), nil, 42)
	child("child71", 50, 71, func(d uint64) bool { return d == 0 }, nil)
	mine("scaling0_30", with(17, func(h *ref.Header) { h.EdgeBits = 30; h.Scaling = 0 }), nil, 42)
	mine("past", with(18, func(h *ref.Header) { h.Time = -1000 }), nil, 42)
	mine("v0", with(19, func(h *ref.Header) { h.Version = 0; h.Height = 5 }), nil, 42)
	c5 := chain(5, c4, 1)
	chain(6, c5, 1)
	child("child1000", 60, 1000, func(d uint64) bool { return d > 1 && d < 10 }, nil)
	// values that are something else when they are cut or overflow
	mine("futureYear2445", with(22, func(h *ref.Header) { h.Time = 15000000000 }), nil, 42)
	mine("highHeight", with(23, func(h *ref.Header) { h.Height = 1<<32 + 1000 }), nil, 42)
	child("child72", 70, 72, func(d uint64) bool { return d == 2 }, nil)
	mine("futureYear2156", with(24, func(h *ref.Header) { h.Time = 5900000000 }), nil, 42)
	mine("longPast", with(25, func(h *ref.Header) { h.Time = -10000000000 }), nil, 42)
	mine("ok31", with(21, func(h *ref.Header) { h.EdgeBits = 31 }), nil, 42)
	// can't be read, since its time is no valid one
	mine("wrapTime", with(26, func(h *ref.Header) { h.Time = math.MaxInt64 }), nil, 42)
}
