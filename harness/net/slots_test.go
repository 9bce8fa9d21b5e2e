package net

import (
	"errors"
	"fmt"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"

	"verif/harness/kit"
	"verif/harness/ref"
)

// the number of connections that the node keeps
const slots = 15

var errHangUp = errors.New("hanging up")

// count is how many connections of a remote are up.
func (r *remote) count() (n int) {
	for _, l := range r.all() {
		l.mu.Lock()
		if l.shaken && !l.closed && !l.mine {
			n++
		}
		l.mu.Unlock()
	}
	return
}

// badGreeting is a handshake that fails.
func badGreeting(kind string) func(l *link) error {
	return func(l *link) error {
		s := ref.Shake{Version: 1, Caps: 7, TD: 5, Agent: "remote", Genesis: genesis}
		switch kind {
		case "closes at once":
			return errHangUp
		case "closes after the hand":
			l.takeHand()
			return errHangUp
		case "wrong genesis":
			s.Genesis[5] ^= 1
		case "wrong version":
			s.Version = 2
		case "garbage":
			l.takeHand()
			l.Write([]byte("HTTP/1.1 400 Bad Request\r\n\r\n"))
			return errHangUp
		case "error":
			l.takeHand()
			l.Write(ref.Frame(0, append(ref.U32(3), 0, 0, 0, 0, 0, 0, 0, 0)))
			return errHangUp
		}
		l.takeHand()
		l.Write(ref.Frame(ref.TShake, s.Bytes()))
		// gringo closes it
		l.listen()
		return errHangUp
	}
}

// watch looks at the connections until stop is closed, and tells what was
// wrong for over two seconds.
func watch(rs func() []*remote, stop chan struct{}) (result func() string) {
	var mu sync.Mutex
	var bad string
	done := make(chan struct{})
	go func() {
		defer close(done)
		since := map[string]time.Time{}
		for {
			select {
			case <-stop:
				return
			case <-time.After(50 * time.Millisecond):
			}
			found := map[string]bool{}
			total := 0
			for i, r := range rs() {
				n := r.count()
				total += n
				if n > 1 {
					found[fmt.Sprintf("%d connections to peer %d at once", n, i)] = true
				}
			}
			if total > slots {
				found["more than 15 connections"] = true
			}
			for k := range since {
				if !found[k] {
					delete(since, k)
				}
			}
			for k := range found {
				if _, ok := since[k]; !ok {
					since[k] = time.Now()
				}
				if time.Since(since[k]) > 2*time.Second {
					mu.Lock()
					bad = k
					mu.Unlock()
				}
			}
		}
	}()
	return func() string {
		close(stop)
		<-done
		mu.Lock()
		defer mu.Unlock()
		return bad
	}
}

// varied draws the greeting of a good peer.
func varied(t *rapid.T) func(l *link) error {
	caps := rapid.SampledFrom([]uint32{0, 1, 2, 7, 7, 1 << 31}).Draw(t, "capabilities")
	td := rapid.SampledFrom([]uint64{0, 1, 1 << 20, 1<<64 - 1}).Draw(t, "greeting's td")
	return func(l *link) error { return greetAs(l, td, caps) }
}

// TestC26: connections and what they cost.
func TestC26(t *testing.T) {
	p := kit.New(t, "C26", "at least one connection that fails or ends, or more peers than connections",
		"the chain below the node is a model", "connecting may take a minute more than one second for each peer")

	bads := []string{"closes at once", "closes after the hand", "wrong genesis", "wrong version", "garbage", "error"}

	p.Part("capacity", kit.Budget{Quick: 96, Thorough: 1600, Shards: 96, Journal: true, Shrink: time.Second}, func(c *kit.Case) {
		var mu sync.Mutex
		var good, all []*remote
		defer func() {
			for _, r := range all {
				r.close()
			}
		}()
		var late, addrs []string
		var kinds []string
		add := func(kind, addr string) {
			kinds = append(kinds, kind)
			if kind != "none" && rapid.IntRange(0, 3).Draw(c.T, "later") == 0 {
				late = append(late, addr)
				kinds[len(kinds)-1] += " (added later)"
			} else {
				addrs = append(addrs, addr)
			}
		}
		keep := func(r *remote) *remote {
			mu.Lock()
			defer mu.Unlock()
			all = append(all, r)
			return r
		}
		// what fails for ever
		for k := rapid.IntRange(0, 5).Draw(c.T, "failing"); k > 0; k-- {
			kind := rapid.SampledFrom(append([]string{"refuses"}, bads...)).Draw(c.T, "kind")
			c.Class("%s", kind)
			if kind == "refuses" {
				addr, done := refusing()
				defer done()
				add(kind, addr)
				continue
			}
			add(kind, keep(newRemote(badGreeting(kind))).addr)
		}
		reachable := rapid.SampledFrom([]int{1, 14, 15, 15, 15, 16, 18}).Draw(c.T, "reachable")
		failed := len(kinds)
		for k := 0; k < reachable; k++ {
			kind := rapid.SampledFrom([]string{"good", "good", "good", "flaps", "fails at first", "ends later"}).Draw(c.T, "kind")
			if failed > 0 && kind == "fails at first" {
				// peers that failed come last, in no order, so that it might
				// have to wait long
				kind = "flaps"
			}
			usual := varied(c.T)
			greet := usual
			switch kind {
			case "flaps":
				// hangs up after the handshake some times
				left := rapid.IntRange(1, 2).Draw(c.T, "times")
				how := rapid.IntRange(0, 2).Draw(c.T, "how")
				var m sync.Mutex
				greet = func(l *link) error {
					m.Lock()
					left--
					ok := left < 0
					m.Unlock()
					if err := usual(l); err != nil || ok {
						return err
					}
					switch how {
					case 1:
						l.takeFrames(2)
					case 2:
						l.Write([]byte("garbage, and too much of it to be ignored"))
						l.takeFrames(100)
					}
					return errHangUp
				}
			case "fails at first":
				left := rapid.IntRange(1, 3).Draw(c.T, "times")
				bad := rapid.SampledFrom(bads).Draw(c.T, "how")
				var m sync.Mutex
				greet = func(l *link) error {
					m.Lock()
					left--
					ok := left < 0
					m.Unlock()
					if ok {
						return usual(l)
					}
					return badGreeting(bad)(l)
				}
			}
			c.Class("%s", kind)
			r := keep(newRemote(greet))
			good = append(good, r)
			add(kind, r.addr)
		}
		if len(kinds) > reachable || reachable > slots {
			c.NonTrivial()
		}
		if rapid.IntRange(0, 3).Draw(c.T, "empty at first") == 0 {
			late, addrs = append(late, addrs...), nil
			kinds = append(kinds, "empty at first")
		}
		banned := 0
		if rapid.IntRange(0, 3).Draw(c.T, "bans") == 0 {
			banned = rapid.IntRange(1, 3).Draw(c.T, "banned")
			for k := 0; k < banned; k++ {
				r := keep(newRemote(nil))
				addrs = append(addrs, r.addr)
				kinds = append(kinds, "good, then banned")
			}
		}
		bans := append([]*remote{}, all[len(all)-banned:]...)
		c.Note("peers: %v", kinds)
		n := newNode(newModel(), false, addrs...)
		n.start()
		defer n.stop()
		wrong := watch(func() []*remote { mu.Lock(); defer mu.Unlock(); return append([]*remote{}, all...) }, make(chan struct{}))
		time.Sleep(time.Duration(rapid.IntRange(0, 5000).Draw(c.T, "wait")) * time.Millisecond)
		for _, a := range late {
			n.Pool.Add(a)
		}
		limit := time.Duration(2*len(kinds)+60) * time.Second
		for _, r := range bans {
			within(3*time.Second, func() bool { return r.count() > 0 })
			if l := r.live(); l != nil && rapid.Bool().Draw(c.T, "by an offence") {
				h := ref.Header{Version: 1, EdgeBits: 29, Edges: make([]uint32, 42), Nonce: 1}
				l.Write(ref.Frame(ref.THeaders, ref.Headers([]ref.Header{h})))
				within(3*time.Second, func() bool { return n.isBan(c, r.addr) })
			}
			c.Must("Ban", func() { n.Pool.Ban(r.addr) })
		}
		want := min(reachable, slots)
		total := func() (k int) {
			for _, r := range good {
				k += r.count()
			}
			return
		}
		reach := func(when string) {
			if !within(limit, func() bool { return total() == want }) {
				c.Fatalf("%s: %d connections to the %d peers that accept them after %v", when, total(), reachable, limit)
			}
		}
		reach("at first")
		// and again
		again := 0
		for _, r := range good {
			if rapid.IntRange(0, 7).Draw(c.T, "ends") == 0 {
				for _, l := range r.all() {
					l.hangUp()
				}
				again++
			}
		}
		c.Note("and then %d hang up", again)
		if again > 0 {
			c.NonTrivial()
			reach("after hang-ups")
		}
		time.Sleep(2200 * time.Millisecond)
		if total() != want {
			c.Fatalf("%d connections instead of %d", total(), want)
		}
		for i, r := range good {
			if l := r.live(); l != nil {
				if !l.barrier(1, 2) {
					c.Fatalf("peer %d isn't answered", i)
				}
				if b := r.broken(); b != "" {
					c.Fatalf("peer %d got %s", i, b)
				}
			}
		}
		if w := wrong(); w != "" {
			c.Fatalf("%s", w)
		}
		noFatal(c)
		n.stop()
		if !n.stopped() {
			c.Fatalf("Run doesn't return")
		}
	})
}

// takeFrames reads some frames, for at most a second.
func (l *link) takeFrames(n int) {
	l.SetReadDeadline(time.Now().Add(time.Second))
	defer l.SetReadDeadline(time.Time{})
	for ; n > 0; n-- {
		if _, err := readFrame(l.Conn); err != nil {
			return
		}
	}
}

// TestC28: stopping.
func TestC28(t *testing.T) {
	p := kit.New(t, "C28", "every case: a node that is stopped",
		"the chain below the node is a model", "stopping may take three minutes; that nothing more happens is watched for two seconds")

	stop := func(c *kit.Case, full bool) {
		var all []*remote
		var kinds []string
		release := make(chan struct{})
		var once sync.Once
		free := func() { once.Do(func() { close(release) }) }
		defer free()
		defer func() {
			for _, r := range all {
				r.close()
			}
		}()
		var addrs []string
		silent := false
		peers := rapid.IntRange(0, 5)
		sorts := []string{"good", "good", "asks", "asks a lot", "refuses", "closes at once", "wrong genesis", "silent", "banned"}
		if full {
			peers = rapid.IntRange(14, 18)
			sorts = []string{"good", "good", "good", "good", "good", "asks", "asks a lot"}
		}
		for k := peers.Draw(c.T, "peers"); k > 0; k-- {
			kind := rapid.SampledFrom(sorts).Draw(c.T, "kind")
			if kind == "silent" {
				if silent || rapid.Bool().Draw(c.T, "not") {
					kind = "good"
				} else {
					silent = true
				}
			}
			kinds = append(kinds, kind)
			c.Class("%s", kind)
			usual := varied(c.T)
			switch kind {
			case "refuses":
				a, done := refusing()
				defer done()
				addrs = append(addrs, a)
				continue
			case "closes at once", "wrong genesis":
				all = append(all, newRemote(badGreeting(kind)))
			case "silent":
				all = append(all, newRemote(func(l *link) error { <-release; return errHangUp }))
			case "asks":
				all = append(all, newRemote(func(l *link) error {
					if err := usual(l); err != nil {
						return err
					}
					go func() {
						for i := uint64(0); i < 300; i++ {
							if _, err := l.Write(ref.Frame(ref.TPing, ref.Status(i, i))); err != nil {
								return
							}
							time.Sleep(10 * time.Millisecond)
						}
					}()
					return nil
				}))
			case "asks a lot":
				// and doesn't read the answers
				all = append(all, newRemote(func(l *link) error {
					if err := usual(l); err != nil {
						return err
					}
					l.SetWriteDeadline(time.Now().Add(patience))
					for i := 0; i < 40; i++ {
						if _, err := l.Write(ref.Frame(ref.TGetHeaders, ref.Locator(nil))); err != nil {
							break
						}
					}
					<-release
					return nil
				}))
			default:
				all = append(all, newRemote(usual))
			}
			addrs = append(addrs, all[len(all)-1].addr)
		}
		early := !full && rapid.IntRange(0, 5).Draw(c.T, "before it runs") == 0
		delay := time.Duration(rapid.OneOf(rapid.IntRange(0, 50), rapid.IntRange(0, 5500)).Draw(c.T, "delay")) * time.Millisecond
		c.Note("peers %v, stopped before it runs: %v, otherwise after %v", kinds, early, delay)
		c.NonTrivial()
		m := newModel()
		h := smallHeader(c.T, 2)
		many := make([]ref.Header, ref.MaxHeaders)
		for i := range many {
			many[i] = h
		}
		m.answer = func([][]byte) []ref.Header { return many }
		n := newNode(m, false, addrs...)
		if early {
			n.stop()
			n.start()
		} else {
			n.start()
			if full {
				up := func() (k int) {
					for _, r := range all {
						if len(r.all()) > 0 {
							k++
						}
					}
					return
				}
				within(90*time.Second, func() bool { return up() >= min(len(all), slots) })
				c.Class("%d peers, %d connected", len(all), up())
			}
			time.Sleep(delay)
			for i, k := range kinds {
				if k == "banned" {
					c.Must("Ban", func() { n.Pool.Ban(addrs[i]) })
				}
			}
			n.stop()
		}
		// It may start to connect to some more before it notices, half as
		// likely each time.
		select {
		case <-n.ran:
		case <-time.After(3 * time.Minute):
			c.Fatalf("Run doesn't return")
		}
		if n.out.Panic != nil {
			c.Fatalf("Run panicked: %v", n.out.Panic)
		}
		free()
		open := func() (k int) {
			for _, r := range all {
				for _, l := range r.all() {
					if !l.isClosed() {
						k++
					}
				}
			}
			return
		}
		if !eventually(func() bool { return open() == 0 }) {
			c.Fatalf("%d connections are open after stopping", open())
		}
		made := func() (k int) {
			for _, r := range all {
				k += len(r.all())
			}
			return
		}
		before := made()
		time.Sleep(2 * time.Second)
		if k := made(); k > before {
			c.Fatalf("%d connections were made after stopping", k-before)
		}
		noFatal(c)
	}
	p.Part("stop", kit.Budget{Quick: 192, Thorough: 6000, Shards: 96, Journal: true, Shrink: 5 * time.Second}, func(c *kit.Case) { stop(c, false) })
	p.Part("full", kit.Budget{Quick: 32, Thorough: 600, Shards: 32, Journal: true, Shrink: time.Second}, func(c *kit.Case) { stop(c, true) })
}
