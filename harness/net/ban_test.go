package net

import (
	"bytes"
	"fmt"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/dblokhin/gringo/p2p"
	"pgregory.net/rapid"

	"verif/harness/kit"
	"verif/harness/ref"
)

// up waits until the node is connected to all remotes and has greeted them.
func up(c *kit.Case, rs ...*remote) {
	for i, r := range rs {
		if !eventually(func() bool { l := r.live(); return l != nil && len(l.log()) >= 2 }) {
			c.Fatalf("the node doesn't connect to peer %d and greet it", i)
		}
	}
}

// addrOf is a remote's address in wire form.
func addrOf(r *remote) ref.Addr {
	var port uint16
	fmt.Sscanf(r.addr[strings.LastIndex(r.addr, ":")+1:], "%d", &port)
	return ref.Addr{IP: []byte{127, 0, 0, 1}, Port: port}
}

// outcast checks that the node has nothing to do with an address and gets
// nothing to do with it when other peers tell about it.
func outcast(c *kit.Case, n *node, a ref.Addr, good *remote) {
	addr := host(a)
	check := func(when string) {
		if !n.isBan(c, addr) {
			c.Fatalf("%s: %s isn't banned", when, addr)
		}
		if n.Pool.PeerInfo(addr) != nil {
			c.Fatalf("%s: %s is in the table, though banned", when, addr)
		}
		for _, caps := range []uint32{0, 7} {
			if has(n.table(caps), addr) {
				c.Fatalf("%s: %s is listed, though banned", when, addr)
			}
		}
	}
	check("after the ban")
	for k := rapid.IntRange(1, 2).Draw(c.T, "attempts"); k > 0; k-- {
		if rapid.Bool().Draw(c.T, "add") {
			c.Must("Add", func() { n.Pool.Add(addr) })
			check("after adding it again")
			continue
		}
		l := []ref.Addr{a}
		mapped := rapid.Bool().Draw(c.T, "mapped")
		if mapped {
			l[0].IP = append(append(make([]byte, 10), 0xff, 0xff), a.IP...)
		}
		if rapid.Bool().Draw(c.T, "others, too") { // that the node doesn't take
			l = append([]ref.Addr{{IP: []byte{224, 1, 2, 3}, Port: 5}}, l...)
		}
		g := good.live()
		if g == nil {
			c.Fatalf("the good peer isn't connected")
		}
		g.Write(ref.Frame(ref.TAddrs, ref.Addrs(l)))
		if !g.barrier(1, 1) {
			c.Fatalf("the good peer isn't answered")
		}
		check(fmt.Sprintf("after a peer has told us about it (as IPv6: %v)", mapped))
	}
}

// TestC24: banning.
func TestC24(t *testing.T) {
	p := kit.New(t, "C24", "every case: a ban in a running node",
		"the chain and the mempool below the node are models", "what must happen may take 25 seconds; that nothing comes of a banned peer is watched for 2.5 seconds")

	p.Part("offence", kit.Budget{Quick: 192, Thorough: 4000, Shards: 96, Journal: true, Shrink: 5 * time.Second}, func(c *kit.Case) {
		good := newRemote(nil)
		defer good.close()
		bad := []*remote{newRemote(nil)}
		defer bad[0].close()
		spelt := rapid.SampledFrom([]string{"", "", "", "", "port 0", "mapped"}).Draw(c.T, "spelling")
		switch colon := strings.LastIndex(bad[0].addr, ":"); spelt {
		case "port 0": // known by an address that isn't written as the connection's
			bad[0].addr = bad[0].addr[:colon] + ":0" + bad[0].addr[colon+1:]
		case "mapped":
			bad[0].addr = "[::ffff:127.0.0.1]" + bad[0].addr[colon:]
		}
		c.Class("spelling: %q", spelt)
		if rapid.IntRange(0, 3).Draw(c.T, "two offenders") == 0 {
			bad = append(bad, newRemote(nil))
			defer bad[1].close()
		}
		w, n := newWorld(c, bad[0])
		w.dials = true
		for _, r := range append([]*remote{good}, bad[1:]...) {
			n.Pool.Add(r.addr)
		}
		height := chainHeight(c.T)
		n.set(9, height)
		n.start()
		defer n.stop()
		up(c, append([]*remote{good}, bad...)...)
		c.NonTrivial()

		var wg sync.WaitGroup
		var peers []*p2p.Peer
		for i, r := range bad {
			w.out = nil
			kinds := []string{}
			before := rapid.IntRange(0, 4).Draw(c.T, "before")
			if i > 0 {
				before = 0 // the order of calls between peers isn't known
			}
			for ; before > 0; before-- {
				kinds = append(kinds, w.step(c))
			}
			offences := []string{"headers", "block"}
			if w.mempool {
				offences = append(offences, "transaction")
			}
			kind := rapid.SampledFrom(offences).Draw(c.T, "offence")
			kinds = append(kinds, "invalid "+kind)
			c.Class("%s", kind)
			switch kind {
			case "headers":
				var l []ref.Header
				k := rapid.IntRange(1, 5).Draw(c.T, "headers")
				at := rapid.IntRange(0, k-1).Draw(c.T, "invalid one")
				for j := 0; j < k; j++ {
					nonce := rapid.Uint64().Draw(c.T, "nonce") &^ 1
					if j == at {
						nonce |= 1
					}
					l = append(l, smallHeader(c.T, nonce))
				}
				w.out = append(w.out, ref.Frame(ref.THeaders, ref.Headers(l))...)
				w.calls = append(w.calls, "headers "+string(ref.Headers(l)))
			case "block":
				b := block(c.T, rapid.Uint64().Draw(c.T, "nonce")|1, 2)
				if rapid.Bool().Draw(c.T, "at the top") {
					b.Header.Height = height
				}
				w.out = append(w.out, ref.Frame(ref.TBlock, b.Bytes())...)
				w.calls = append(w.calls, "block "+string(b.Bytes()))
			default:
				x := tx(c.T, false, 2)
				w.out = append(w.out, ref.Frame(ref.TTx, x.Bytes())...)
				w.calls = append(w.calls, "tx "+string(x.Bytes()))
			}
			calls, sent := w.calls, w.sent
			for k := rapid.IntRange(0, 4).Draw(c.T, "afterwards"); k > 0; k-- {
				kinds = append(kinds, w.step(c))
			}
			w.calls, w.sent = calls, sent
			pieces := plan(c, len(w.out))
			c.Note("offender %d sends %s in %d pieces", i, strings.Join(kinds, ", "), len(pieces)+1)
			l, out := r.live(), w.out
			if pi := n.Pool.PeerInfo(r.addr); pi != nil {
				pi.Lock()
				peers = append(peers, pi.Peer)
				pi.Unlock()
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				send(l, out, pieces)
			}()
		}
		wg.Wait()
		for i, r := range bad {
			if !eventually(func() bool { return n.isBan(c, r.addr) && r.all()[0].isClosed() }) {
				c.Fatalf("offender %d: banned %v, connection closed %v", i, n.isBan(c, r.addr), r.all()[0].isClosed())
			}
		}
		ended := time.Now()
		for _, r := range bad {
			r := r
			// the ban is in force before the table is cleared
			eventually(func() bool { return n.Pool.PeerInfo(r.addr) == nil })
			if host(addrOf(r)) == r.addr {
				outcast(c, n, addrOf(r), good)
				continue
			}
			c.Must("Add", func() { n.Pool.Add(r.addr) })
			if n.Pool.PeerInfo(r.addr) != nil || has(n.table(0), r.addr) {
				c.Fatalf("%s is in the table, though banned", r.addr)
			}
		}
		for _, peer := range peers {
			if peer != nil {
				c.Must("WaitForDisconnect", peer.WaitForDisconnect)
			}
		}
		time.Sleep(time.Until(ended.Add(2500 * time.Millisecond)))
		for i, r := range bad {
			if k := len(r.all()); k > 1 {
				c.Fatalf("the node has connected to offender %d again", i)
			}
			if n.Pool.PeerInfo(r.addr) != nil || !n.isBan(c, r.addr) {
				c.Fatalf("offender %d is back in the table", i)
			}
		}
		g := good.live()
		if g == nil || len(good.all()) != 1 {
			c.Fatalf("the good peer was disconnected")
		}
		if n.isBan(c, good.addr) || n.Pool.PeerInfo(good.addr) == nil || !has(n.table(0), good.addr) {
			c.Fatalf("the good peer isn't in the table any more")
		}
		if !g.barrier(3, 4) {
			c.Fatalf("the good peer isn't answered")
		}
		w.sameCalls(c, "at the end", len(bad) > 1)
		noFatal(c)
		n.stop()
		if !n.stopped() {
			c.Fatalf("Run doesn't return")
		}
	})

	// a node without a mempool can't tell, and a notification is no reason
	p.Part("no offence", kit.Budget{Quick: 96, Thorough: 2000, Shards: 96, Journal: true, Shrink: 5 * time.Second}, func(c *kit.Case) {
		r := newRemote(nil)
		defer r.close()
		w, n := newWorld(c, r)
		w.dials, w.mempool = true, false
		n.Mempool = nil
		n.set(9, chainHeight(c.T))
		n.start()
		defer n.stop()
		up(c, r)
		c.NonTrivial()
		l := r.live()
		var kinds []string
		for k := rapid.IntRange(1, 5).Draw(c.T, "messages"); k > 0; k-- {
			switch rapid.IntRange(0, 2).Draw(c.T, "kind") {
			case 0:
				h := smallHeader(c.T, rapid.Uint64().Draw(c.T, "nonce")|1)
				w.out = append(w.out, ref.Frame(ref.THeader, h.Bytes())...)
				w.calls = append(w.calls, "headers "+string(ref.Headers([]ref.Header{h})))
				kinds = append(kinds, "invalid header")
			case 1:
				x := tx(c.T, rapid.Bool().Draw(c.T, "valid"), 2)
				w.out = append(w.out, ref.Frame(ref.TTx, x.Bytes())...)
				kinds = append(kinds, "transaction")
			default:
				kinds = append(kinds, w.step(c))
			}
		}
		c.Note("%s", strings.Join(kinds, ", "))
		l.Write(w.out)
		time.Sleep(time.Duration(rapid.IntRange(0, 300).Draw(c.T, "wait")) * time.Millisecond)
		if !eventually(func() bool { return len(l.log()) >= len(w.sent)+2 || l.isClosed() }) {
			c.Fatalf("not everything was answered")
		}
		if !l.barrier(5, 6) {
			c.Fatalf("the peer was disconnected")
		}
		if n.isBan(c, r.addr) || n.Pool.PeerInfo(r.addr) == nil || !has(n.table(0), r.addr) || len(r.all()) != 1 {
			c.Fatalf("the peer was banned")
		}
		w.sameCalls(c, "at the end", false)
		noFatal(c)
	})

	p.Part("explicit", kit.Budget{Quick: 192, Thorough: 4000, Shards: 96, Journal: true, Shrink: 5 * time.Second}, func(c *kit.Case) {
		state := rapid.SampledFrom([]string{"unknown", "new", "connected", "silent", "slow", "failing", "busy", "hung up"}).Draw(c.T, "state")
		delay := time.Duration(rapid.IntRange(0, 1500).Draw(c.T, "delay")) * time.Millisecond
		times := rapid.IntRange(1, 3).Draw(c.T, "times")
		c.Note("bans a peer that is %s, after %v, %d times at once", state, delay, times)
		c.Class("%s", state)
		c.NonTrivial()
		release := make(chan struct{})
		var r *remote
		var refuse string
		switch state {
		case "silent":
			r = newRemote(func(l *link) error { l.takeHand(); <-release; return fmt.Errorf("enough") })
		case "slow":
			r = newRemote(func(l *link) error {
				time.Sleep(time.Duration(delay / 2))
				return usual(l)
			})
		case "failing":
			var done func()
			refuse, done = refusing()
			defer done()
		default:
			r = newRemote(nil)
		}
		defer close(release)
		var a ref.Addr
		if r != nil {
			defer r.close()
			a = addrOf(r)
		} else {
			a = addrOf(&remote{addr: refuse})
		}
		addr := host(a)
		good := newRemote(nil)
		defer good.close()
		n := newNode(newModel(), true, good.addr)
		if state != "unknown" {
			n.Pool.Add(addr)
		}
		n.start()
		defer n.stop()
		switch state {
		case "new", "silent", "slow", "failing":
			time.Sleep(delay)
		case "unknown":
		default:
			up(c, r)
			time.Sleep(delay / 4)
			if state == "busy" {
				l := r.live()
				go func() {
					for i := uint64(0); i < 2000; i++ {
						if _, err := l.Write(ref.Frame(ref.TPing, ref.Status(i, i))); err != nil {
							return
						}
					}
				}()
				time.Sleep(time.Duration(rapid.IntRange(0, 10).Draw(c.T, "ms busy")) * time.Millisecond)
			}
			if state == "hung up" {
				r.live().hangUp()
			}
		}
		var wg sync.WaitGroup
		var mu sync.Mutex
		var bad string
		for i := 0; i < times; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				if o := kit.Do(func() { n.Pool.Ban(addr) }); !o.OK() {
					mu.Lock()
					bad = fmt.Sprint("Ban: ", o)
					mu.Unlock()
				}
			}()
		}
		wg.Wait()
		if bad != "" {
			c.Fatalf("%s", bad)
		}
		up(c, good)
		outcast(c, n, a, good)
		closed := func() bool {
			if r == nil {
				return true
			}
			for _, l := range r.all() {
				// a silent handshake hasn't ended for us
				if !l.isClosed() && state != "silent" {
					return false
				}
			}
			return true
		}
		if !eventually(closed) {
			c.Fatalf("the connection isn't closed")
		}
		count := 0
		if r != nil {
			count = len(r.all())
		}
		time.Sleep(2500 * time.Millisecond)
		if r != nil && len(r.all()) != count {
			c.Fatalf("the node connects again")
		}
		outcast(c, n, a, good)
		if len(good.all()) != 1 || good.live() == nil || !good.live().barrier(1, 2) {
			c.Fatalf("the good peer was disconnected")
		}
		noFatal(c)
		n.stop()
		if !n.stopped() {
			c.Fatalf("Run doesn't return")
		}
	})

	// however many others are banned
	p.Part("many", kit.Budget{Quick: 160, Thorough: 4000, Shards: 8, Journal: true, Shrink: 5 * time.Second}, func(c *kit.Case) {
		n := newNode(newModel(), false)
		count := rapid.OneOf(rapid.IntRange(1, 300), rapid.IntRange(300, 3000), rapid.IntRange(3000, 12000)).Draw(c.T, "addresses")
		every := rapid.SampledFrom([]int{1, 1, 2, 3, 1 << 20}).Draw(c.T, "not banned")
		known := rapid.SampledFrom([]string{"never", "before", "all before", "between", "after"}).Draw(c.T, "known")
		c.Note("%d addresses, of which every %d. isn't banned; added to the table: %s", count, every, known)
		c.Class("%s", known)
		c.NonTrivial()
		addr := func(i int) string { return fmt.Sprintf("12.%d.%d.%d:%d", i>>16, i>>8&255, i&255, 1+i%7) }
		banned := func(i int) bool { return every == 1 || i%every != 0 }
		kept := []int{}
		c.Must("Add and Ban", func() {
			if known == "all before" {
				for i := 0; i < count; i++ {
					n.Pool.Add(addr(i))
				}
			}
			for i := 0; i < count; i++ {
				if known == "before" || known == "between" && i%2 == 0 {
					n.Pool.Add(addr(i))
				}
				if banned(i) {
					n.Pool.Ban(addr(i))
				} else {
					n.Pool.Add(addr(i))
				}
				if known == "after" {
					n.Pool.Add(addr(i))
				}
			}
		})
		for i := 0; i < count; i++ {
			if !banned(i) && len(kept) < maxTable {
				kept = append(kept, i)
			}
		}
		check := func(when string) {
			for i := 0; i < count; i++ {
				if n.isBan(c, addr(i)) != banned(i) {
					c.Fatalf("%s: address %d of %d should be banned: %v", when, i, count, banned(i))
				}
				if banned(i) && n.Pool.PeerInfo(addr(i)) != nil {
					c.Fatalf("%s: address %d is banned and in the table", when, i)
				}
			}
			if known == "all before" && count > maxTable {
				return // some weren't taken at first
			}
			for _, i := range kept {
				if n.Pool.PeerInfo(addr(i)) == nil {
					c.Fatalf("%s: address %d, which isn't banned, isn't in the table", when, i)
				}
			}
		}
		check("after the bans")
		c.Must("Add", func() {
			for i := count - 1; i >= 0; i-- {
				if banned(i) {
					n.Pool.Add(addr(i))
				}
			}
		})
		check("after adding them again")
		noFatal(c)
	})

	// a ban while the peer's messages come in
	p.Part("busy", kit.Budget{Quick: 12000, Thorough: 200000, Shards: 48, Journal: true, Shrink: 5 * time.Second}, func(c *kit.Case) {
		r := newRemote(nil)
		defer r.close()
		m := newModel()
		n := newNode(m, true, r.addr)
		peer, l := direct(c, n, r)
		defer peer.Close()
		kind := rapid.SampledFrom([]string{"pings", "pongs", "headers", "requests", "good blocks"}).Draw(c.T, "kind")
		wait := time.Duration(rapid.IntRange(0, 3000).Draw(c.T, "wait")) * time.Microsecond
		c.Note("bans a peer that sends %s, after %v", kind, wait)
		c.Class("%s", kind)
		c.NonTrivial()
		var f []byte
		switch kind {
		case "pings":
			f = ref.Frame(ref.TPing, ref.Status(1, 1))
		case "pongs":
			f = ref.Frame(ref.TPong, ref.Status(1, 1))
		case "headers":
			f = ref.Frame(ref.THeaders, ref.Headers([]ref.Header{smallHeader(c.T, 2)}))
		case "requests":
			f = ref.Frame(ref.TGetAddrs, ref.U32(7))
		default:
			b := block(c.T, 2, 1)
			f = ref.Frame(ref.TBlock, b.Bytes())
		}
		f = bytes.Repeat(f, 20)
		done := make(chan struct{})
		go func() {
			defer close(done)
			l.SetWriteDeadline(time.Now().Add(patience))
			for {
				if _, err := l.Write(f); err != nil {
					return
				}
			}
		}()
		time.Sleep(wait)
		c.Must("Ban", func() { n.Pool.Ban(r.addr) })
		calls := len(m.log())
		c.Must("WaitForDisconnect", peer.WaitForDisconnect)
		if k := len(m.log()); k > calls+1 {
			c.Fatalf("%d messages took effect after the ban", k-calls)
		}
		if !eventually(l.isClosed) {
			c.Fatalf("the connection isn't closed")
		}
		<-done
		if n.Pool.PeerInfo(r.addr) != nil || !n.isBan(c, r.addr) || has(n.table(0), r.addr) {
			c.Fatalf("the peer isn't banned")
		}
		noFatal(c)
	})
}
