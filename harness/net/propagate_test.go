package net

import (
	"bytes"
	"fmt"
	"testing"
	"time"

	"pgregory.net/rapid"

	"verif/harness/gen"
	"verif/harness/kit"
	"verif/harness/ref"
)

// TestC29: passing on blocks.
func TestC29(t *testing.T) {
	p := kit.New(t, "C29", "a round in which some peer has to get the block, or a reason not to pass it on",
		"the chain below the node is a model", "what must arrive may take 25 seconds; that nothing else comes is watched for 0.3 seconds and until the end of the case")

	play := func(c *kit.Case, peers, most int) {
		var rs []*remote
		var addrs []string
		for k := peers; k > 0; k-- {
			td := uint64(rapid.IntRange(0, 3).Draw(c.T, "shake's td"))
			caps := rapid.OneOf(rapid.Just(uint32(7)), rapid.Uint32Range(0, 8), rapid.Uint32()).Draw(c.T, "caps")
			r := newRemote(func(l *link) error { return greetAs(l, td, caps) })
			defer r.close()
			rs = append(rs, r)
			addrs = append(addrs, r.addr)
		}
		n := newNode(newModel(), false, addrs...)
		n.start()
		defer n.stop()
		up(c, rs...)
		type status struct{ td, height uint64 }
		links := make([]*link, len(rs))
		want := make([][][]byte, len(rs)) // blocks that each has to get
		for i, r := range rs {
			links[i] = r.live()
		}
		gone := make([]bool, len(rs))
		rounds := rapid.IntRange(1, most).Draw(c.T, "rounds")
		for round := 1; round <= rounds; round++ {
			level := uint64(round) * 1000
			c.Note("round %d", round)
			// sometimes a peer hangs up and is connected again; its state is
			// then what its handshake says
			if len(rs) > 1 && rapid.IntRange(0, 7).Draw(c.T, "reconnect") == 0 {
				i := rapid.IntRange(0, len(rs)-1).Draw(c.T, "which")
				if !gone[i] {
					c.Note("peer %d hangs up and is connected again", i)
					links[i].hangUp()
					want[i] = nil
					old := links[i]
					if !within(2*patience, func() bool { l := rs[i].live(); return l != nil && l != old && len(l.log()) >= 2 }) {
						c.Fatalf("peer %d isn't connected again", i)
					}
					links[i] = rs[i].live()
				}
			}
			// where the peers say they are: around the block's level, and above
			// all earlier blocks
			sender := rapid.IntRange(0, len(rs)-1).Draw(c.T, "sender")
			if gone[sender] {
				continue
			}
			states := make([]status, len(rs))
			for i, l := range links {
				if gone[i] {
					continue
				}
				states[i] = status{level + uint64(rapid.IntRange(0, 4).Draw(c.T, "td")), level + uint64(rapid.IntRange(0, 4).Draw(c.T, "height"))}
				if !l.barrier(states[i].td, states[i].height) {
					c.Fatalf("peer %d isn't answered", i)
				}
			}
			b := block(c.T, 2*rapid.Uint64Range(0, 1<<40).Draw(c.T, "nonce"), rapid.SampledFrom([]int{0, 2}).Draw(c.T, "items"))
			b.Header.TD, b.Header.Height = level+uint64(rapid.IntRange(0, 4).Draw(c.T, "block td")), level+uint64(rapid.IntRange(0, 4).Draw(c.T, "block height"))
			copy(b.Header.Prev[:], gen.Expand(uint64(round), 32)) // all different
			kind := rapid.SampledFrom([]string{"top", "top", "top", "below the chain", "above the chain", "invalid"}).Draw(c.T, "kind")
			height := b.Header.Height
			switch kind {
			case "below the chain":
				height += uint64(rapid.SampledFrom([]int{1, 2, 500}).Draw(c.T, "by"))
			case "above the chain":
				height -= uint64(rapid.SampledFrom([]int{1, 2, 500}).Draw(c.T, "by"))
			case "invalid":
				b.Header.Nonce |= 1
				gone[sender] = true
			}
			c.Class("%s", kind)
			n.set(rapid.Uint64().Draw(c.T, "chain td"), height)
			c.Note("peers at %v; %d sends a block (%s) at %d, %d", states, sender, kind, b.Header.TD, b.Header.Height)
			raw := b.Bytes()
			links[sender].Write(ref.Frame(ref.TBlock, raw))
			if kind != "invalid" {
				if !links[sender].barrier(level+900, level+900) {
					c.Fatalf("the sender isn't answered")
				}
			} else if !eventually(links[sender].isClosed) {
				c.Fatalf("the sender of an invalid block isn't disconnected")
			}
			for i, s := range states {
				if kind == "top" && !gone[i] && i != sender && (s.td < b.Header.TD || s.height < b.Header.Height) {
					want[i] = append(want[i], raw)
					c.Class("has to be sent")
					c.NonTrivial()
				}
			}
			if kind != "top" {
				c.NonTrivial()
			}
			check := func() string {
				for i, l := range links {
					if gone[i] {
						continue
					}
					var got [][]byte
					for _, f := range l.log() {
						if f.typ == ref.TBlock {
							got = append(got, f.body)
						}
					}
					for k := 0; k < len(got) || k < len(want[i]); k++ {
						if k >= len(want[i]) {
							return fmt.Sprintf("peer %d got a block too many: %s", i, brief(got[k]))
						}
						if k >= len(got) {
							return fmt.Sprintf("peer %d didn't get the block", i)
						}
						if !bytes.Equal(got[k], want[i][k]) {
							return fmt.Sprintf("peer %d got another block than was sent: %s", i, brief(got[k]))
						}
					}
				}
				return ""
			}
			eventually(func() bool { return check() == "" })
			time.Sleep(300 * time.Millisecond)
			if s := check(); s != "" {
				c.Fatalf("%s", s)
			}
			noFatal(c)
		}
		n.stop()
		if !n.stopped() {
			c.Fatalf("Run doesn't return")
		}
	}
	p.Part("rounds", kit.Budget{Quick: 192, Thorough: 4000, Shards: 96, Journal: true, Shrink: 5 * time.Second}, func(c *kit.Case) {
		play(c, rapid.IntRange(1, 5).Draw(c.T, "peers"), 8)
	})
	// as many as the node keeps connections
	p.Part("crowd", kit.Budget{Quick: 24, Thorough: 400, Shards: 24, Journal: true, Shrink: time.Second}, func(c *kit.Case) {
		play(c, rapid.OneOf(rapid.Just(slots), rapid.IntRange(6, slots)).Draw(c.T, "peers"), 3)
	})

	// some of the peers don't read: whatever piles up for them, the others get
	// all blocks and are served
	p.Part("clogged", kit.Budget{Quick: 16, Thorough: 300, Shards: 16, Journal: true, Shrink: 5 * time.Second}, func(c *kit.Case) {
		release := make(chan struct{})
		defer close(release)
		var good, clogged []*remote
		var addrs []string
		for k := rapid.IntRange(2, 3).Draw(c.T, "peers"); k > 0; k-- {
			r := newRemote(func(l *link) error { return greetAs(l, 0, 7) })
			defer r.close()
			good = append(good, r)
			addrs = append(addrs, r.addr)
		}
		for k := rapid.IntRange(1, 4).Draw(c.T, "peers that don't read"); k > 0; k-- {
			r := newRemote(func(l *link) error {
				err := greetAs(l, 0, 7)
				if err == nil {
					l.mu.Lock()
					l.shaken = true
					l.mu.Unlock()
					<-release
				}
				return err
			})
			defer r.close()
			clogged = append(clogged, r)
			addrs = append(addrs, r.addr)
		}
		m := newModel()
		n := newNode(m, false, addrs...)
		n.start()
		defer n.stop()
		up(c, good...)
		for i, r := range clogged {
			if !eventually(func() bool { return r.live() != nil }) {
				c.Fatalf("the node doesn't connect to peer %d and greet it", len(good)+i)
			}
		}
		time.Sleep(100 * time.Millisecond) // for the node to take them in
		blocks := rapid.IntRange(4, 6).Draw(c.T, "blocks")
		size := rapid.IntRange(60000, 100000).Draw(c.T, "inputs")
		from := rapid.IntRange(0, len(good)-1).Draw(c.T, "sender")
		c.Note("%d peers that read and %d that don't; peer %d sends %d blocks of %d inputs", len(good), len(clogged), from, blocks, size)
		c.NonTrivial()
		var want [][]byte
		l := good[from].live()
		for k := 1; k <= blocks; k++ {
			b := ref.Block{Header: smallHeader(c.T, 2*uint64(k))}
			b.Header.Height, b.Header.TD = uint64(k), uint64(k)
			for i := 0; i < size; i++ {
				in := ref.Input{Features: uint8(i)}
				in.Commit[0], in.Commit[1], in.Commit[2], in.Commit[3], in.Commit[4] = 8, byte(i>>16), byte(i>>8), byte(i), byte(k)
				b.Inputs = append(b.Inputs, in)
			}
			b.Body.Sort()
			raw := b.Bytes()
			n.set(uint64(k), uint64(k))
			l.SetWriteDeadline(time.Now().Add(patience))
			if _, err := l.Write(ref.Frame(ref.TBlock, raw)); err != nil {
				c.Fatalf("block %d can't be sent to the node: %v", k, err)
			}
			if !l.barrier(1<<20, 1<<20) {
				c.Fatalf("the sender isn't answered after block %d", k)
			}
			want = append(want, raw)
			for i, r := range good {
				if i == from {
					continue
				}
				o := r.live()
				if o == nil {
					c.Fatalf("peer %d isn't connected any more", i)
				}
				if !eventually(func() bool { return o.count(ref.TBlock) >= k }) {
					c.Fatalf("peer %d doesn't get block %d", i, k)
				}
				x := 0
				for _, f := range o.log() {
					if f.typ == ref.TBlock {
						if x >= k || !bytes.Equal(f.body, want[x]) {
							c.Fatalf("block %d that peer %d gets is another one", x, i)
						}
						x++
					}
				}
			}
		}
		noFatal(c)
		for _, r := range clogged {
			r.close()
		}
		n.stop()
		if !n.stopped() {
			c.Fatalf("Run doesn't return")
		}
	})
}
