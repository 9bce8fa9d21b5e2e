package net

import (
	"encoding/binary"
	"errors"
	"fmt"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/dblokhin/gringo/consensus"
	"github.com/dblokhin/gringo/p2p"
	"pgregory.net/rapid"

	"verif/harness/conv"
	"verif/harness/gen"
	"verif/harness/kit"
	"verif/harness/ref"
)

// TestC27: sending, closing and waiting at once.
func TestC27(t *testing.T) {
	p := kit.New(t, "C27", "at least two senders, or an end of the connection while something is sent",
		"schedules are those that the Go scheduler makes", "a call is stuck after two minutes")

	p.Part("race", kit.Budget{Quick: 12000, Thorough: 300000, Shards: 48, Journal: true, Shrink: 5 * time.Second}, func(c *kit.Case) {
		senders := rapid.IntRange(0, 6).Draw(c.T, "senders")
		end := rapid.SampledFrom([]string{"none", "close", "disconnect", "close before start", "hang-up", "reset", "garbage", "half frame", "doesn't read", "doesn't read, asks", "closed by a handler"}).Draw(c.T, "end")
		wait := time.Duration(rapid.OneOf(rapid.Just(0), rapid.IntRange(0, 300), rapid.IntRange(0, 20000)).Draw(c.T, "µs before the end")) * time.Microsecond
		closers := rapid.IntRange(1, 3).Draw(c.T, "closers")
		waiters := rapid.IntRange(0, 2).Draw(c.T, "waiters")
		pings := 0
		if end != "close before start" {
			pings = rapid.SampledFrom([]int{0, 0, 1, 20}).Draw(c.T, "pings")
		}
		big := rapid.Bool().Draw(c.T, "large messages")
		c.Class("%s", end)
		plans := make([]int, senders)
		total := 0
		for i := range plans {
			plans[i] = rapid.OneOf(rapid.IntRange(1, 4), rapid.IntRange(1, 60)).Draw(c.T, "messages")
			total += plans[i]
		}
		c.Note("%v messages by sender (large ones: %v); the peer sends %d pings; end: %s after %v, %d at once, %d wait", plans, big, pings, end, wait, closers, waiters)
		if senders > 1 || end != "none" && senders > 0 {
			c.NonTrivial()
		}

		var stopReading int32
		release := make(chan struct{})
		var once sync.Once
		free := func() { once.Do(func() { close(release) }) }
		defer free()
		r := newRemote(func(l *link) error {
			if err := usual(l); err != nil {
				return err
			}
			if atomic.LoadInt32(&stopReading) != 0 {
				<-release
			}
			return nil
		})
		defer r.close()
		if end == "doesn't read" || end == "doesn't read, asks" {
			stopReading = 1
		}
		m := newModel()
		many := make([]ref.Header, ref.MaxHeaders)
		for i := range many {
			many[i] = ref.Header{Version: 1, EdgeBits: 29, Edges: make([]uint32, 42)}
		}
		var peer *p2p.Peer
		m.answer = func([][]byte) []ref.Header {
			if end == "closed by a handler" {
				peer.Close()
			}
			return many
		}
		n := newNode(m, false, r.addr)
		var err error
		c.Must("NewPeer", func() { peer, err = p2p.NewPeer(n.Syncer, r.addr) })
		if err != nil {
			c.Fatalf("a good handshake fails: %v", err)
		}
		defer peer.Close()
		var large []byte
		var largeBlock *consensus.Block
		if big {
			b := ref.Block{Header: ref.Header{Version: 1, EdgeBits: 29, Edges: make([]uint32, 42)}}
			for i := 0; i < 2000; i++ {
				in := ref.Input{Features: uint8(i)}
				copy(in.Commit[:], gen.Expand(uint64(i)+9000, 33))
				b.Inputs = append(b.Inputs, in)
			}
			b.Body.Sort()
			large, largeBlock = b.Bytes(), conv.Block(b)
		}

		var mu sync.Mutex
		var bad []string
		guard := func(wg *sync.WaitGroup, what string, f func()) {
			wg.Add(1)
			go func() {
				defer wg.Done()
				if o := kit.Do(f); !o.OK() {
					mu.Lock()
					bad = append(bad, fmt.Sprintf("%s: %v", what, o))
					mu.Unlock()
				}
			}()
		}
		var sending, ending sync.WaitGroup
		if end != "close before start" {
			peer.Start()
		}
		for i, k := range plans {
			i, k := i, k
			guard(&sending, "sending", func() {
				for s := 0; s < k; s++ {
					if big && s%7 == 3 {
						peer.SendBlock(largeBlock)
					}
					h := make([]byte, 32)
					binary.BigEndian.PutUint32(h, uint32(i))
					binary.BigEndian.PutUint32(h[4:], uint32(s))
					peer.SendBlockRequest(h)
				}
			})
		}
		for i := 0; i < waiters; i++ {
			if end != "close before start" {
				guard(&ending, "WaitForDisconnect", peer.WaitForDisconnect)
			}
		}
		if pings > 0 {
			if !eventually(func() bool { return len(r.all()) > 0 && (r.all()[0].isShaken() || stopReading != 0) }) {
				c.Fatalf("no connection")
			}
			l := r.all()[0]
			go func() {
				for i := 0; i < pings; i++ {
					l.SetWriteDeadline(time.Now().Add(patience))
					if _, err := l.Write(ref.Frame(ref.TPing, ref.Status(uint64(i), 1))); err != nil {
						return
					}
				}
			}()
		}
		if !eventually(func() bool { return len(r.all()) > 0 && (r.all()[0].isShaken() || stopReading != 0) }) {
			c.Fatalf("no connection")
		}
		l := r.all()[0]
		if end == "doesn't read, asks" {
			go func() {
				for i := 0; i < 30; i++ {
					l.SetWriteDeadline(time.Now().Add(patience))
					if _, err := l.Write(ref.Frame(ref.TGetHeaders, ref.Locator(nil))); err != nil {
						return
					}
				}
			}()
		}
		time.Sleep(wait)
		switch end {
		case "none":
			sending.Wait()
			// everything arrives
			if !eventually(func() bool { return len(l.log()) >= expected(plans, big)+pings }) {
				c.Fatalf("%d of %d messages arrive", len(l.log()), expected(plans, big)+pings)
			}
			guard(&ending, "Close", peer.Close)
		case "hang-up":
			l.hangUp()
		case "reset":
			if tc, ok := l.Conn.(interface{ SetLinger(int) error }); ok {
				tc.SetLinger(0)
			}
			l.hangUp()
		case "garbage":
			l.Write(make([]byte, 64))
		case "closed by a handler":
			l.Write(ref.Frame(ref.TGetHeaders, ref.Locator(nil)))
		case "half frame":
			f := ref.Frame(ref.TPing, ref.Status(1, 1))
			l.Write(f[:rapid.IntRange(1, len(f)-1).Draw(c.T, "cut")])
			l.hangUp()
		default:
			for i := 0; i < closers; i++ {
				f := peer.Close
				if end == "disconnect" {
					f = func() { peer.Disconnect(errors.New("enough")) }
				}
				guard(&ending, end, f)
			}
		}
		if end == "close before start" {
			ending.Wait()
			peer.Start()
		}
		guard(&ending, "WaitForDisconnect", peer.WaitForDisconnect)
		ending.Wait()
		sending.Wait()
		// and afterwards
		guard(&sending, "sending after the end", func() { peer.SendPing() })
		guard(&sending, "closing again", peer.Close)
		sending.Wait()
		free()
		if !eventually(l.isClosed) {
			c.Fatalf("the connection isn't closed")
		}
		if len(bad) > 0 {
			c.Fatalf("%s", bad[0])
		}
		if b := r.broken(); b != "" {
			c.Fatalf("the peer got %s", b)
		}
		next := make([]uint32, senders)
		pongs := 0
		for i, f := range l.log() {
			switch f.typ {
			case ref.TPong:
				pongs++
			case ref.THeaders:
				if end != "doesn't read, asks" || string(f.body) != string(ref.Headers(many)) {
					c.Fatalf("frame %d: unexpected headers", i)
				}
			case ref.TBlock:
				if string(f.body) != string(large) {
					c.Fatalf("frame %d: another block than was sent", i)
				}
			case ref.TGetBlock:
				if len(f.body) != 32 {
					c.Fatalf("frame %d: %d %x", i, f.typ, f.body)
				}
				s, k := binary.BigEndian.Uint32(f.body), binary.BigEndian.Uint32(f.body[4:])
				if int(s) >= senders || next[s] != k || int(k) >= plans[s] {
					c.Fatalf("frame %d: message %d of sender %d comes out of order or twice", i, k, s)
				}
				next[s]++
			default:
				c.Fatalf("frame %d is of type %d, which nobody sent", i, f.typ)
			}
		}
		if pongs > pings {
			c.Fatalf("%d pongs for %d pings", pongs, pings)
		}
		if end == "none" {
			for s, k := range next {
				if int(k) != plans[s] {
					c.Fatalf("%d of %d messages of sender %d arrived", k, plans[s], s)
				}
			}
			if pongs != pings {
				c.Fatalf("%d pongs for %d pings", pongs, pings)
			}
		}
		noFatal(c)
	})

	// many at once, to a peer that takes its time: none is lost
	p.Part("burst", kit.Budget{Quick: 48, Thorough: 600, Shards: 24, Journal: true, Shrink: 5 * time.Second}, func(c *kit.Case) {
		senders := rapid.IntRange(1, 8).Draw(c.T, "senders")
		plans := make([]int, senders)
		total := 0
		for i := range plans {
			plans[i] = rapid.OneOf(rapid.IntRange(1, 300), rapid.IntRange(1, 6000)).Draw(c.T, "messages")
			total += plans[i]
		}
		pause := time.Duration(rapid.OneOf(rapid.Just(0), rapid.IntRange(0, 500), rapid.IntRange(500, 5000)).Draw(c.T, "ms before the peer reads")) * time.Millisecond
		// blocks of 170 kB between the others, so many that the connection
		// takes no more until the peer reads
		blocks := rapid.SampledFrom([]int{0, 0, 3, 50, 70}).Draw(c.T, "blocks")
		var block *consensus.Block
		if blocks > 0 {
			b := ref.Block{Header: ref.Header{Version: 1, EdgeBits: 29, Edges: make([]uint32, 42)}}
			for i := 0; i < 5000; i++ {
				in := ref.Input{Features: uint8(i)}
				copy(in.Commit[:], gen.Expand(uint64(i)+9000, 33))
				b.Inputs = append(b.Inputs, in)
			}
			b.Body.Sort()
			block = conv.Block(b)
		}
		c.Note("%v messages by sender and %d blocks; the peer begins to read after %v", plans, blocks, pause)
		if senders > 1 {
			c.NonTrivial()
		}
		r := newRemote(func(l *link) error {
			if tc, ok := l.Conn.(interface{ SetReadBuffer(int) error }); ok && blocks > 0 {
				tc.SetReadBuffer(1 << 14)
			}
			if err := usual(l); err != nil {
				return err
			}
			time.Sleep(pause)
			return nil
		})
		defer r.close()
		n := newNode(newModel(), false, r.addr)
		var peer *p2p.Peer
		var err error
		c.Must("NewPeer", func() { peer, err = p2p.NewPeer(n.Syncer, r.addr) })
		if err != nil {
			c.Fatalf("a good handshake fails: %v", err)
		}
		defer peer.Close()
		peer.Start()
		var wg sync.WaitGroup
		for i, k := range plans {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for s := 0; s < k; s++ {
					h := make([]byte, 32)
					binary.BigEndian.PutUint32(h, uint32(i))
					binary.BigEndian.PutUint32(h[4:], uint32(s))
					peer.SendBlockRequest(h)
				}
			}()
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < blocks; i++ {
				peer.SendBlock(block)
			}
		}()
		c.Must("sending", wg.Wait)
		if !eventually(func() bool { return len(r.all()) > 0 && r.all()[0].isShaken() }) {
			c.Fatalf("no connection")
		}
		l := r.all()[0]
		if !eventually(func() bool { return l.count(ref.TGetBlock) >= total && l.count(ref.TBlock) >= blocks }) {
			c.Fatalf("%d of %d messages and %d of %d blocks arrive", l.count(ref.TGetBlock), total, l.count(ref.TBlock), blocks)
		}
		next := make([]int, senders)
		for i, f := range l.log() {
			if f.typ == ref.TBlock {
				blocks--
				continue
			}
			if f.typ != ref.TGetBlock || len(f.body) != 32 {
				c.Fatalf("frame %d: %d %x", i, f.typ, f.body)
			}
			s, k := int(binary.BigEndian.Uint32(f.body)), int(binary.BigEndian.Uint32(f.body[4:]))
			if s >= senders || next[s] != k || k >= plans[s] {
				c.Fatalf("frame %d: message %d of sender %d comes out of order or twice", i, k, s)
			}
			next[s]++
		}
		if blocks < 0 {
			c.Fatalf("%d blocks too many arrive", -blocks)
		}
		c.Must("Close", peer.Close)
		c.Must("WaitForDisconnect", peer.WaitForDisconnect)
		noFatal(c)
	})
}

// expected is how many messages the senders send.
func expected(plans []int, large bool) (n int) {
	for _, k := range plans {
		n += k
		if large {
			n += (k + 3) / 7
		}
	}
	return
}
