// Package mix runs everything together.
package mix

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"math/big"
	"reflect"
	"sync"
	"testing"
	"time"

	"github.com/dblokhin/gringo/chain"
	"github.com/dblokhin/gringo/consensus"
	"github.com/dblokhin/gringo/cuckoo"
	"github.com/dblokhin/gringo/p2p"
	"github.com/dblokhin/gringo/secp256k1zkp"
	"pgregory.net/rapid"

	"verif/harness/conv"
	"verif/harness/data"
	"verif/harness/gen"
	"verif/harness/kit"
	"verif/harness/msgs"
	"verif/harness/ref"
	"verif/harness/rules"
)

// task is something with a known result, whatever else is done before or at
// the same time.
type task struct {
	name string
	run  func() []byte
	want []byte
}

func verdict(err error) []byte {
	if err != nil {
		return []byte("rejected")
	}
	return []byte("accepted")
}

func expect(ok bool) []byte {
	if ok {
		return []byte("accepted")
	}
	return []byte("rejected")
}

// archive is a storage over a list of blocks of ascending heights.
type archive []*consensus.Block

func (s archive) AddBlock(*consensus.Block)      { panic("a block is added") }
func (s archive) DelBlock(consensus.BlockID)     { panic("a block is deleted") }
func (s archive) GetLastBlock() *consensus.Block { return s[len(s)-1] }
func (s archive) find(id consensus.BlockID) int {
	for i, b := range s {
		if (id.Hash == nil || bytes.Equal(b.Hash(), id.Hash)) && (id.Height == nil || *id.Height == b.Header.Height) {
			return i
		}
	}
	return -1
}
func (s archive) GetBlock(id consensus.BlockID) *consensus.Block {
	if i := s.find(id); i >= 0 {
		return s[i]
	}
	return nil
}
func (s archive) From(id consensus.BlockID, limit int) (out consensus.BlockList) {
	if i := s.find(id); i >= 0 {
		for ; i < len(s) && len(out) < limit; i++ {
			out = append(out, *s[i])
		}
	}
	return
}

func filler(seed, height uint64) ref.Header {
	h := ref.Header{Version: 1, Height: height, Time: 1500000000 + int64(height)*60, Scaling: 1, EdgeBits: 29}
	x := gen.Expand(seed^height*0x9e3779b97f4a7c15, 42*4)
	for i := 0; i < 42; i++ {
		h.Edges = append(h.Edges, (uint32(x[4*i])<<24|uint32(x[4*i+1])<<16|uint32(x[4*i+2])<<8|uint32(x[4*i+3]))>>3)
	}
	copy(h.Prev[:], gen.Expand(seed+height, 32))
	return h
}

// world is what the tasks of a case share.
type world struct {
	c     *kit.Case
	heads []ref.Header
	ch    *chain.Chain
	arch  []ref.Header
	rs    sync.Map // the nonce points of signatures
	good  []ref.Header
}

// body draws a valid encoding, lists in order.
func (w *world) body(x msgs.Target) ([]byte, []int) {
	b, marks := x.Gen(w.c.T)
	if x.Name == "block" {
		blk, _, err := ref.ParseBlock(b)
		if err != nil {
			panic(err)
		}
		blk.Sort()
		b = blk.BytesAsGiven()
	}
	return b, marks
}

func read(x msgs.Target, b []byte, how int) (p2p.Message, error) {
	// the buffer is used again afterwards
	buf := append([]byte{}, b...)
	m := x.Mk()
	var r io.Reader = bytes.NewReader(buf)
	switch how {
	case 1:
		r = bytes.NewBuffer(buf)
	case 2:
		br := bufio.NewReaderSize(r, 4096)
		defer func() {
			br.Reset(bytes.NewReader(bytes.Repeat([]byte{0xa5}, 4096)))
			br.Peek(4096)
		}()
		r = br
	case 3:
		wire := append(ref.Frame(x.Wire().Type, b), 0, 1, 2, 3)
		frame := bytes.NewBuffer(wire)
		_, err := p2p.ReadMessage(frame, m)
		for i := range wire {
			wire[i] ^= 0xff
		}
		return m, err
	}
	err := m.Read(r)
	for i := range buf {
		buf[i] ^= 0xff
	}
	return m, err
}

// variant is a mined header, often with a change.
func (w *world) variant() ref.Header {
	t := w.c.T
	h := w.heads[rapid.IntRange(0, len(w.heads)-1).Draw(t, "mined")]
	switch rapid.IntRange(0, 7).Draw(t, "variant") {
	case 0:
		h.Nonce ^= 1 << rapid.IntRange(0, 63).Draw(t, "bit")
	case 1:
		h.Edges = append([]uint32{}, h.Edges...)
		h.Edges[rapid.IntRange(0, len(h.Edges)-1).Draw(t, "edge")] ^= 1
	case 2:
		h.Height += 95000
	case 3:
		h.TD++
	}
	return h
}

var kinds = []string{"encode", "encode", "decode", "decode over", "corrupted", "corrupted", "frame", "header", "header", "headers", "kernel", "kernel",
	"small cycle", "cycle", "hash", "short id", "difficulty", "locator", "block", "orphan", "state", "commit", "sign", "whole block", "whole block"}

func (w *world) task() task {
	t := w.c.T
	kind := rapid.SampledFrom(kinds).Draw(t, "task")
	x := msgs.Targets[rapid.IntRange(0, len(msgs.Targets)-1).Draw(t, "message")]
	how := rapid.IntRange(0, 3).Draw(t, "reader")
	switch kind {
	case "encode":
		b, _ := w.body(x)
		m, err := read(x, b, how)
		if err != nil {
			w.c.Fatalf("%s: a valid encoding is rejected: %v", x.Name, err)
		}
		return task{kind + " " + x.Name, m.Bytes, b}
	case "decode":
		b, _ := w.body(x)
		return task{kind + " " + x.Name, func() []byte {
			m, err := read(x, b, how)
			if err != nil {
				return verdict(err)
			}
			return m.Bytes()
		}, b}
	case "decode over":
		// into an object that has been used
		b, _ := w.body(x)
		first, marks := w.body(x)
		if rapid.Bool().Draw(t, "bad before") {
			first, _ = msgs.Corrupt(t, first, marks)
		}
		return task{kind + " " + x.Name, func() []byte {
			m := x.Mk()
			var kept p2p.Message
			var was []byte
			if err := m.Read(bytes.NewReader(first)); err == nil {
				m.Bytes()
				// a copy of the object, as one makes of a header to keep it
				kept = x.Mk()
				reflect.ValueOf(kept).Elem().Set(reflect.ValueOf(m).Elem())
				was = kept.Bytes()
			}
			if err := m.Read(bytes.NewReader(b)); err != nil {
				return verdict(err)
			}
			if kept != nil && !bytes.Equal(kept.Bytes(), was) {
				return fmt.Appendf(nil, "a copy of the object read before has changed: %s", msgs.Brief(kept.Bytes()))
			}
			return m.Bytes()
		}, b}
	case "corrupted":
		b, marks := x.Gen(t)
		b, what := msgs.Corrupt(t, b, marks)
		want, _, ok := x.Wire().Parse(b)
		if !ok {
			want = expect(false)
		}
		return task{kind + " " + x.Name + what, func() []byte {
			m, err := read(x, b, how)
			if err != nil {
				return verdict(err)
			}
			return x.Again(m)
		}, want}
	case "frame":
		b, _ := w.body(x)
		m, err := read(x, b, how)
		if err != nil {
			w.c.Fatalf("%s: a valid encoding is rejected: %v", x.Name, err)
		}
		want := ref.Frame(x.Wire().Type, b)
		return task{kind + " " + x.Name, func() []byte {
			var buf bytes.Buffer
			if _, err := p2p.WriteMessage(&buf, m); err != nil {
				return verdict(err)
			}
			out := buf.Bytes()
			// and back
			again := x.Mk()
			if _, err := p2p.ReadMessage(bytes.NewReader(out), again); err != nil {
				return verdict(err)
			}
			return msgs.Cat(out, again.Bytes())
		}, msgs.Cat(want, b)}
	case "header":
		h := w.variant()
		g := conv.Header(h)
		return task{fmt.Sprintf("header %+v", h), func() []byte { return verdict(g.Validate()) }, expect(rules.HeaderOK(&h, time.Now().Unix()))}
	case "headers":
		var l []consensus.BlockHeader
		ok := true
		for n := rapid.IntRange(1, 4).Draw(t, "headers"); n > 0; n-- {
			h := w.good[rapid.IntRange(0, len(w.good)-1).Draw(t, "good")]
			if rapid.IntRange(0, 4).Draw(t, "bad") == 4 {
				h.KernelRoot[3] ^= 4
				ok = false
			}
			l = append(l, conv.Header(h))
		}
		return task{fmt.Sprintf("%d headers, all good: %v", len(l), ok), func() []byte { return verdict(w.ch.ProcessHeaders(l)) }, expect(ok)}
	case "kernel":
		k := gen.ValidKernel(t, 0)
		switch rapid.IntRange(0, 3).Draw(t, "change") {
		case 0:
			k.Fee ^= 1 << rapid.IntRange(0, 63).Draw(t, "bit")
		case 1:
			k.LockHeight ^= 1 << rapid.IntRange(0, 63).Draw(t, "bit")
		case 2:
			k.Sig[rapid.IntRange(32, 63).Draw(t, "byte")] ^= 1
		}
		g := conv.Kernel(k)
		return task{fmt.Sprintf("kernel %+v", k), func() []byte { return verdict(g.Validate()) }, expect(k.Valid())}
	case "small cycle":
		key := gen.Bytes(t, "key", 40)
		bits := uint8(rapid.IntRange(6, 9).Draw(t, "edge bits"))
		var e [][2]uint64
		for b := uint64(0); b < uint64(1)<<bits/64; b++ {
			x := ref.CuckarooEdges(ref.Keys(key), b, bits)
			e = append(e, x[:]...)
		}
		nonces := []uint32{1, 2, 5, 8}
		if l := ref.Cycles(e, 4, 32, 8); len(l) > 0 {
			nonces = nil
			for _, n := range l[rapid.IntRange(0, len(l)-1).Draw(t, "cycle")] {
				nonces = append(nonces, uint32(n))
			}
		}
		if rapid.IntRange(0, 2).Draw(t, "break") == 0 {
			nonces[rapid.IntRange(0, len(nonces)-1).Draw(t, "at")] ^= 1
		}
		var l [][2]uint64
		ok := true
		for i, n := range nonces {
			ok = ok && (i == 0 || n > nonces[i-1])
			l = append(l, e[n])
		}
		ok = ok && ref.SimpleCycle(l)
		shared := cuckoo.NewCuckaroo(key)
		return task{fmt.Sprintf("cycle %v of %x", nonces, key), func() []byte { return fmt.Append(nil, shared.Verify(nonces, bits)) }, fmt.Append(nil, ok)}
	case "cycle":
		h := w.variant()
		if h.EdgeBits < 29 {
			h.EdgeBits = 29
		}
		shared := cuckoo.NewCuckaroo(h.PrePow())
		return task{fmt.Sprintf("proof of %+v", h), func() []byte { return fmt.Append(nil, shared.Verify(h.Edges, h.EdgeBits)) }, fmt.Append(nil, rules.PowOK(&h))}
	case "hash":
		h := gen.Header(t)
		g := conv.Header(h)
		want := h.Hash()
		return task{fmt.Sprintf("hash of %+v", h), func() []byte {
			return fmt.Appendf(nil, "%x %d", []byte(g.Hash()), g.POW.ToDifficulty())
		}, fmt.Appendf(nil, "%x %d", want, h.PowDifficulty())}
	case "short id":
		a, b := gen.Bytes(t, "hash", 32), gen.Bytes(t, "block", 32)
		le := func(b []byte) (v uint64) {
			for i := 7; i >= 0; i-- {
				v = v<<8 | uint64(b[i])
			}
			return
		}
		var want []byte
		for i, sip := 0, ref.SipHash24(le(b), le(b[8:]), a); i < 6; i++ {
			want = append(want, byte(sip>>(8*i)))
		}
		return task{kind, func() []byte { return consensus.Hash(a).ShortID(b) }, want}
	case "difficulty":
		n := rapid.IntRange(60, 90).Draw(t, "window")
		seed := rapid.Uint64().Draw(t, "seed")
		rnd := gen.Expand(seed, 3*n)
		var l consensus.BlockList
		var s []ref.Sample
		for i := 0; i < n; i++ {
			at := 1600000000 - int64(i)*60 - int64(rnd[3*i])
			d := uint64(rnd[3*i+1])<<8 | uint64(rnd[3*i+2])
			l = append(l, consensus.Block{Header: consensus.BlockHeader{Timestamp: time.Unix(at, 0).UTC(), Difficulty: consensus.Difficulty(d)}})
			s = append(s, ref.Sample{Time: new(big.Int).Mul(big.NewInt(at), big.NewInt(1e9)), Difficulty: d})
		}
		return task{fmt.Sprintf("difficulty after %d blocks, seed %d", n, seed), func() []byte { return fmt.Append(nil, consensus.NextDifficulty(l)) }, fmt.Append(nil, ref.NextDifficulty(s))}
	case "locator":
		x := rapid.IntRange(0, len(w.arch)-1).Draw(t, "at")
		hash := w.arch[x].Hash()
		loc := consensus.Locator{Hashes: []consensus.Hash{gen.Expand(uint64(x), 32), hash[:]}}
		return task{fmt.Sprintf("headers after %d", x), func() []byte {
			var l []ref.Header
			got := w.ch.GetBlockHeaders(loc)
			for i := range got {
				l = append(l, conv.BackHeader(&got[i]))
			}
			return ref.Headers(l)
		}, ref.Headers(w.arch[x+1:])}
	case "block":
		x := rapid.IntRange(-1, len(w.arch)-1).Draw(t, "at")
		hash, want := gen.Expand(77, 32), []byte("none")
		if x >= 0 {
			h := w.arch[x].Hash()
			hash, want = h[:], w.arch[x].Bytes()
		}
		return task{fmt.Sprintf("block %d", x), func() []byte {
			b := w.ch.GetBlock(hash)
			if b == nil {
				return []byte("none")
			}
			return b.Header.Bytes()
		}, want}
	case "orphan":
		b := ref.Block{Header: w.good[rapid.IntRange(0, len(w.good)-1).Draw(t, "good")], Body: gen.ValidBody(t, 1, 1)}
		if rapid.Bool().Draw(t, "change") {
			b.Kernels[0].Fee ^= 1
		}
		ok, why := rules.BlockOK(&b, time.Now().Unix())
		g := conv.Block(b)
		return task{fmt.Sprintf("a block without a parent, %v %s: %s", ok, why, rules.Summary(&b)), func() []byte { return verdict(w.ch.ProcessBlock(g)) }, expect(ok)}
	case "state":
		last := w.arch[len(w.arch)-1]
		return task{kind, func() []byte {
			h := w.ch.Head()
			return fmt.Appendf(nil, "%d %d %x", w.ch.Height(), w.ch.TotalDifficulty(), h.Header.Bytes())
		}, fmt.Appendf(nil, "%d %d %x", last.Height, last.TD, last.Bytes())}
	case "commit":
		r, v := gen.Scalar(t, "blind"), new(big.Int).SetUint64(rapid.Uint64().Draw(t, "value"))
		want := ref.G.Mul(r).Add(ref.H.Mul(v)).Compress()
		return task{fmt.Sprintf("commitment to %d, blind %x", v, r), func() []byte { return secp256k1zkp.CommitValue(r, v).Bytes() }, want[:]}
	case "sign":
		x := gen.Scalar(t, "key")
		pub := ref.G.Mul(x)
		var msg [32]byte
		copy(msg[:], gen.Bytes(t, "message", 32))
		P := *conv.Point(pub.Compress())
		return task{fmt.Sprintf("signature of %x with the key %x", msg, x), func() []byte {
			s := secp256k1zkp.SignMessage(P, *x, msg)
			enc := s.Bytes()
			if !ref.Verify(pub, msg, enc) {
				return fmt.Appendf(nil, "the signature %x is wrong", enc)
			}
			if _, again := w.rs.LoadOrStore(s.R.X.String(), true); again {
				return fmt.Appendf(nil, "the nonce of signature %x has been used before", enc)
			}
			return verdict(nil)
		}, expect(true)}
	default: // whole block
		b := ref.Block{Header: w.variant(), Body: gen.ValidBody(t, 1, 1)}
		switch rapid.IntRange(0, 3).Draw(t, "change") {
		case 0:
			b.Kernels[0].Fee ^= 1
		case 1:
			b.Outputs[0].Features ^= 1
		case 2:
			o := &b.Outputs[0]
			o.Proof = append([]byte{}, o.Proof...)
			o.Proof[rapid.IntRange(0, 60).Draw(t, "byte")] ^= 1
		}
		ok, why := rules.BlockOK(&b, time.Now().Unix())
		g := conv.Block(b)
		return task{fmt.Sprintf("block %v %s: %s", ok, why, rules.Summary(&b)), func() []byte { return verdict(g.Validate()) }, expect(ok)}
	}
}

func brief(b []byte) string {
	if len(b) < 100 && !bytes.ContainsFunc(b, func(r rune) bool { return r < 32 || r > 126 }) {
		return string(b)
	}
	return msgs.Brief(b)
}

// TestC31: nothing depends on what happened before or happens at the same time.
func TestC31(t *testing.T) {
	p := kit.New(t, "C31", "a case with at least two tasks of one kind with different arguments",
		"real schedules, not all of them; the clock of the machine is between 2019 and 2099")
	now := time.Now().Unix()
	var heads, good []ref.Header
	for _, m := range data.MinedHeaders() {
		h := m.Header
		heads = append(heads, h)
		if rules.HeaderOK(&h, now) {
			good = append(good, h)
		}
	}
	p.Part("mixed", kit.Budget{Quick: 400, Thorough: 20000, Shards: 6}, func(c *kit.Case) {
		w := &world{c: c, heads: heads, good: good}
		seed := rapid.Uint64().Draw(c.T, "seed")
		var arch archive
		for i, n := 0, rapid.IntRange(1, 40).Draw(c.T, "chain"); i < n; i++ {
			h := filler(seed, uint64(i))
			h.TD = uint64(i) * 3
			w.arch = append(w.arch, h)
			arch = append(arch, conv.Block(ref.Block{Header: h}))
		}
		w.ch = chain.New(arch[0], arch)
		var tasks []task
		for n := rapid.IntRange(2, 16).Draw(c.T, "tasks"); n > 0; n-- {
			x := w.task()
			c.Note("task %d: %s", len(tasks), x.name)
			tasks = append(tasks, x)
		}
		if len(tasks) > 4 {
			c.NonTrivial()
		}
		type result struct {
			task int
			got  []byte
		}
		check := func(when string, l []result) {
			for _, r := range l {
				if x := tasks[r.task]; !bytes.Equal(r.got, x.want) {
					c.Fatalf("%s: task %d (%s) gives\n%s\nwant\n%s", when, r.task, x.name, brief(r.got), brief(x.want))
				}
			}
		}
		sequence := func(when string, order []int) {
			var l []result
			for _, i := range order {
				var r result
				c.Must(tasks[i].name, func() { r = result{i, tasks[i].run()} })
				check(when, []result{r})
				l = append(l, r)
			}
			// results stay what they were
			check(when+", looked at later", l)
		}
		first := make([]int, len(tasks))
		for i := range first {
			first[i] = i
		}
		sequence("in order", first)
		sequence("in another order", rapid.SliceOfN(rapid.IntRange(0, len(tasks)-1), 1, 20).Draw(c.T, "order"))

		// at the same time
		var orders [][]int
		for g := rapid.IntRange(2, 10).Draw(c.T, "goroutines"); g > 0; g-- {
			orders = append(orders, rapid.SliceOfN(rapid.IntRange(0, len(tasks)-1), 1, 12).Draw(c.T, "order"))
		}
		c.Note("concurrent: %v", orders)
		results := make([][]result, len(orders))
		outcomes := make([]kit.Outcome, len(orders))
		var ready, done sync.WaitGroup
		ready.Add(len(orders))
		for g := range orders {
			done.Add(1)
			go func() {
				defer done.Done()
				outcomes[g] = kit.Do(func() {
					ready.Done()
					ready.Wait()
					for _, i := range orders[g] {
						results[g] = append(results[g], result{i, tasks[i].run()})
					}
				})
			}()
		}
		done.Wait()
		for g := range orders {
			if o := outcomes[g]; !o.OK() {
				c.Fatalf("concurrently: %v", o)
			}
			check("concurrently", results[g])
		}
		sequence("afterwards", first)
	})
}
