package net

import (
	"fmt"
	"net"
	"os"
	"os/exec"
	"runtime"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/dblokhin/gringo/p2p"
	"pgregory.net/rapid"

	"verif/harness/gen"
	"verif/harness/kit"
	"verif/harness/ref"
)

// text draws a string of up to the protocol's limit.
func text(c *kit.Case) string {
	n := rapid.OneOf(rapid.IntRange(0, 40), rapid.SampledFrom([]int{0, 1, 255, 256, 4096, 65536, ref.MaxString - 1, ref.MaxString})).Draw(c.T, "agent length")
	return string(gen.Bytes(c.T, "agent", n))
}

func ipAddr(c *kit.Case, label string) ref.Addr {
	n := rapid.SampledFrom([]int{4, 16}).Draw(c.T, label+" size")
	return ref.Addr{IP: gen.Bytes(c.T, label, n), Port: rapid.Uint16().Draw(c.T, label+" port")}
}

var handshakeFaults = []string{"none", "none", "none", "none", "longer body", "version", "genesis bit", "another genesis", "type", "magic", "huge",
	"body cut short", "closed midway", "closed at once", "agent too long", "agent length", "no genesis", "bad address"}

// spoil makes the greeting frame, and tells whether it is still good. closeAt
// is how much of it is sent before the connection is closed, or -1.
func spoil(c *kit.Case, fault string, typ uint8, body []byte, agentAt int) (out []byte, closeAt int, ok bool) {
	out, closeAt, ok = ref.Frame(typ, body), -1, true
	switch fault {
	case "longer body":
		out = ref.Frame(typ, append(append([]byte{}, body...), gen.Bytes(c.T, "more", rapid.SampledFrom([]int{1, 11, 5000}).Draw(c.T, "longer"))...))
	case "type":
		t := rapid.Uint8().Draw(c.T, "type")
		out[2], ok = t, t == typ
	case "magic":
		out[rapid.IntRange(0, 1).Draw(c.T, "byte")] ^= 1 << rapid.IntRange(0, 7).Draw(c.T, "bit")
		ok = false
	case "huge":
		out = ref.FrameLen(typ, rapid.SampledFrom([]uint64{ref.MaxMsg + 1, 1 << 32, 1 << 63, 1<<64 - 1}).Draw(c.T, "huge"), body)
		ok = false
	case "body cut short":
		out = ref.Frame(typ, body[:rapid.IntRange(0, len(body)-1).Draw(c.T, "short")])
		ok = false
	case "closed midway":
		closeAt, ok = rapid.IntRange(1, len(out)-1).Draw(c.T, "sent"), false
	case "closed at once":
		closeAt, ok = 0, false
	case "agent length":
		b := append([]byte{}, body...)
		copy(b[agentAt:], []byte{0, 0, 0, 0, 0, 1, 0x86, byte(0xa1 + rapid.IntRange(0, 40).Draw(c.T, "agent length"))})
		if rapid.Bool().Draw(c.T, "enormous") {
			b[agentAt] = byte(rapid.IntRange(1, 255).Draw(c.T, "top"))
		}
		out, ok = ref.Frame(typ, b), false
	case "no genesis":
		out, ok = ref.Frame(typ, body[:len(body)-32]), false
	}
	return
}

func plan(c *kit.Case, n int) (pieces []int) {
	if rapid.Bool().Draw(c.T, "fragmented") {
		for k := rapid.IntRange(1, 6).Draw(c.T, "pieces"); k > 0; k-- {
			pieces = append(pieces, rapid.IntRange(1, n).Draw(c.T, "piece"))
		}
	}
	return
}

// send writes b in pieces.
func send(w net.Conn, b []byte, pieces []int) error {
	for _, n := range pieces {
		n = min(n, len(b))
		if _, err := w.Write(b[:n]); err != nil {
			return err
		}
		b = b[n:]
		time.Sleep(time.Millisecond)
	}
	_, err := w.Write(b)
	return err
}

// TestC22: handshakes.
func TestC22(t *testing.T) {
	p := kit.New(t, "C22", "a handshake with a fault, or with an answer that isn't the usual one",
		"what must happen may take 25 seconds, the ten seconds of a handshake up to 45")

	version := func(c *kit.Case, fault string) uint32 {
		if fault != "version" {
			return 1
		}
		return rapid.OneOf(rapid.SampledFrom([]uint32{0, 2, 3, 1 << 24, 257}), rapid.Uint32Range(2, 1<<32-1)).Draw(c.T, "version")
	}
	chainOf := func(c *kit.Case, fault string) [32]byte {
		g := genesis
		switch fault {
		case "genesis bit":
			g[rapid.IntRange(0, 31).Draw(c.T, "byte")] ^= 1 << rapid.IntRange(0, 7).Draw(c.T, "bit")
		case "another genesis":
			copy(g[:], gen.Bytes(c.T, "genesis", 32))
		}
		return g
	}

	p.Part("outgoing", kit.Budget{Quick: 3000, Thorough: 100000, Shards: 24, Journal: true}, func(c *kit.Case) {
		fault := rapid.SampledFrom(handshakeFaults).Draw(c.T, "fault")
		if fault == "bad address" {
			fault = "none"
		}
		s := ref.Shake{Version: version(c, fault), Caps: rapid.Uint32().Draw(c.T, "caps"), TD: rapid.Uint64().Draw(c.T, "td"), Agent: text(c),
			Genesis: chainOf(c, fault)}
		if fault == "agent too long" {
			s.Agent = string(gen.Expand(1, ref.MaxString+rapid.IntRange(1, 100).Draw(c.T, "too long")))
		}
		b, closeAt, ok := spoil(c, fault, ref.TShake, s.Bytes(), 16)
		ok = ok && s.Version == 1 && s.Genesis == genesis && len(s.Agent) <= ref.MaxString
		pinged := ok && rapid.Bool().Draw(c.T, "ping at once")
		if pinged {
			b = append(b, ref.Frame(ref.TPing, ref.Status(5, 6))...)
		}
		pieces := plan(c, len(b))
		c.Note("fault %s: shake %s, fragments %v, closed after %d, ping at once %v", fault, brief(b), pieces, closeAt, pinged)
		c.Class("%s", fault)
		c.NonTrivial()

		r := newRemote(func(l *link) error {
			if err := l.takeHand(); err != nil {
				return err
			}
			if closeAt >= 0 {
				send(l, b[:closeAt], pieces)
				l.hangUp()
				return nil
			}
			send(l, b, pieces)
			return nil
		})
		defer r.close()
		n := newNode(newModel(), false, r.addr)
		n.set(77, 88)
		var peer *p2p.Peer
		var err error
		defer uncollected()()
		c.Must("NewPeer", func() { peer, err = p2p.NewPeer(n.Syncer, r.addr) })
		if (err == nil) != ok {
			c.Fatalf("the handshake is good: %v, but: %v", ok, err)
		}
		if x := r.broken(); x != "" {
			c.Fatalf("gringo sent garbage: %s", x)
		}
		l := r.all()[0]
		if len(r.all()) != 1 {
			c.Fatalf("%d connections", len(r.all()))
		}
		h := l.hand
		if want := fmt.Sprintf("%v:%d", net.IP(h.Receiver.IP), h.Receiver.Port); h.Version != 1 || h.Caps != 7 || h.Genesis != genesis || want != r.addr || h.Agent == "" {
			c.Fatalf("gringo's hand is %+v", h)
		}
		if !ok {
			if !eventually(l.isClosed) {
				c.Fatalf("the connection stays open after a failed handshake")
			}
			noFatal(c)
			return
		}
		i := peer.Info
		if i.Version != 1 || uint32(i.Capabilities) != s.Caps || uint64(i.TotalDifficulty) != s.TD || i.UserAgent != s.Agent || peer.Addr != r.addr {
			c.Fatalf("the peer is known as %+v at %s", i, peer.Addr)
		}
		peer.Start()
		if pinged {
			if !eventually(func() bool { return l.count(ref.TPong) == 1 }) {
				c.Fatalf("the ping that followed the handshake isn't answered")
			}
		} else if !l.barrier(1, 2) {
			c.Fatalf("a ping isn't answered")
		}
		for _, f := range l.log() {
			if f.typ != ref.TPong || string(f.body) != string(ref.Status(77, 88)) {
				c.Fatalf("gringo sent message %d: %x", f.typ, f.body)
			}
		}
		peer.Close()
		if !eventually(l.isClosed) {
			c.Fatalf("the connection stays open")
		}
		c.Must("WaitForDisconnect", peer.WaitForDisconnect)
		noFatal(c)
	})

	p.Part("incoming", kit.Budget{Quick: 3000, Thorough: 100000, Shards: 24, Journal: true}, func(c *kit.Case) {
		fault := rapid.SampledFrom(append([]string{"own nonce"}, handshakeFaults...)).Draw(c.T, "fault")
		h := ref.Hand{Version: version(c, fault), Caps: rapid.Uint32().Draw(c.T, "caps"), TD: rapid.Uint64().Draw(c.T, "td"), Agent: text(c),
			Nonce: rapid.Uint64().Draw(c.T, "nonce"), Genesis: chainOf(c, fault), Sender: ipAddr(c, "sender"), Receiver: ipAddr(c, "receiver")}
		if fault == "agent too long" {
			h.Agent = string(gen.Expand(1, ref.MaxString+rapid.IntRange(1, 100).Draw(c.T, "too long")))
		}
		if fault == "own nonce" {
			own := rapid.IntRange(1, 3).Draw(c.T, "hands")
			for i := 0; i < own; i++ {
				r := newRemote(nil)
				var peer *p2p.Peer
				var err error
				c.Must("NewPeer", func() { peer, err = p2p.NewPeer(newNode(newModel(), false, r.addr).Syncer, r.addr) })
				if err != nil {
					c.Fatalf("a good handshake fails: %v", err)
				}
				if i == 0 {
					h.Nonce = r.all()[0].hand.Nonce
				}
				peer.Close()
				r.close()
			}
		}
		body := h.Bytes()
		agentAt := 24 + len(h.Sender.Bytes()) + len(h.Receiver.Bytes())
		bad := false
		if fault == "bad address" {
			at := rapid.SampledFrom([]int{24, 24 + len(h.Sender.Bytes())}).Draw(c.T, "address")
			body[at] = uint8(rapid.IntRange(2, 255).Draw(c.T, "flag"))
			bad = true
		}
		b, closeAt, ok := spoil(c, fault, ref.THand, body, agentAt)
		ok = ok && !bad && fault != "own nonce" && h.Version == 1 && h.Genesis == genesis && len(h.Agent) <= ref.MaxString
		pieces := plan(c, len(b))
		c.Note("fault %s: hand %s, fragments %v, closed after %d", fault, brief(b), pieces, closeAt)
		c.Class("%s", fault)
		c.NonTrivial()

		l, conn := pair()
		defer l.hangUp()
		var peer *p2p.Peer
		var err error
		got := make(chan struct{})
		go func() {
			if closeAt >= 0 {
				send(l, b[:closeAt], pieces)
				l.hangUp()
			} else {
				send(l, b, pieces)
			}
			close(got)
			l.listen()
		}()
		c.Must("AcceptNewPeer", func() { peer, err = p2p.AcceptNewPeer(conn) })
		defer runtime.KeepAlive(conn) // the collector would close it
		<-got
		if (err == nil) != ok {
			c.Fatalf("the handshake is good: %v, but: %v", ok, err)
		}
		if !ok {
			if !eventually(l.isClosed) {
				c.Fatalf("the connection stays open after a failed handshake")
			}
			noFatal(c)
			return
		}
		if !eventually(func() bool { return len(l.log()) > 0 }) {
			c.Fatalf("no answer to a good hand")
		}
		f := l.log()[0]
		s, parsed := ref.ParseShake(f.body)
		if f.typ != ref.TShake || !parsed || s.Version != 1 || s.Caps != 7 || s.Genesis != genesis || s.Agent == "" {
			c.Fatalf("the answer to a good hand is %d %x", f.typ, f.body)
		}
		i := peer.Info
		if i.Version != 1 || uint32(i.Capabilities) != h.Caps || uint64(i.TotalDifficulty) != h.TD || i.UserAgent != h.Agent {
			c.Fatalf("the peer is known as %+v", i)
		}
		peer.Start()
		peer.Close()
		if !eventually(l.isClosed) {
			c.Fatalf("the connection stays open")
		}
		c.Must("WaitForDisconnect", peer.WaitForDisconnect)
		if n := len(l.log()); n != 1 {
			c.Fatalf("gringo sent %d messages", n)
		}
		noFatal(c)
	})

	// Many handshakes at once: each of their nonces tells our own connections
	p.Part("hands", kit.Budget{Quick: 48, Thorough: 1200, Shards: 24, Journal: true, Shrink: 5 * time.Second}, func(c *kit.Case) {
		k := rapid.OneOf(rapid.IntRange(1, 5), rapid.IntRange(1, 60)).Draw(c.T, "hands")
		c.Note("%d handshakes at once", k)
		c.NonTrivial()
		r := newRemote(nil)
		defer r.close()
		n := newNode(newModel(), false, r.addr)
		peers, errs := make([]*p2p.Peer, k), make([]error, k)
		var wg sync.WaitGroup
		for i := range peers {
			wg.Add(1)
			go func() {
				defer wg.Done()
				peers[i], errs[i] = p2p.NewPeer(n.Syncer, r.addr)
			}()
		}
		c.Must("NewPeer", wg.Wait)
		for i, err := range errs {
			if err != nil {
				c.Fatalf("a good handshake fails: %v", err)
			}
			peers[i].Close()
		}
		own := map[uint64]bool{}
		for _, l := range r.all() {
			own[l.hand.Nonce] = true
		}
		accept := func(nonce uint64) error {
			l, conn := pair()
			defer l.hangUp()
			h := ref.Hand{Version: 1, Genesis: genesis, Sender: ref.Addr{IP: []byte{1, 2, 3, 4}}, Receiver: ref.Addr{IP: []byte{1, 2, 3, 4}}, Nonce: nonce}
			l.Write(ref.Frame(ref.THand, h.Bytes()))
			var err error
			var peer *p2p.Peer
			c.Must("AcceptNewPeer", func() { peer, err = p2p.AcceptNewPeer(conn) })
			if err == nil {
				peer.Close()
			} else {
				conn.Close()
			}
			return err
		}
		for x := range own {
			if accept(x) == nil {
				c.Fatalf("a connection from ourselves is taken: nonce %x", x)
			}
			for _, y := range []uint64{x + 1, x ^ 1<<63, x << 32, x &^ (1<<32 - 1)} {
				if err := accept(y); err != nil && !own[y] {
					c.Fatalf("nonce %x, which isn't ours, is refused: %v", y, err)
				}
			}
		}
		noFatal(c)
	})

	// Where nobody is there is no peer
	p.Part("nobody", kit.Budget{Quick: 200, Thorough: 10000, Shards: 8, Journal: true, Shrink: 5 * time.Second}, func(c *kit.Case) {
		n := newNode(newModel(), false)
		var addr string
		switch rapid.IntRange(0, 2).Draw(c.T, "kind") {
		case 0: // nobody listens
			a, done := refusing()
			defer done()
			addr = a
		case 1: // no address
			addr = rapid.SampledFrom([]string{"127.0.0.1", "127.0.0.1:99999", "127.0.0.1:-1", "127.0.0.1:x", "[::1", "::1:80", "[::1]", "127.0.0.1:80:80",
				"[127.0.0.1:80", "127.0.0.1]:80", "[[::1]]:80", " 127.0.0.1 ", "127.0.0.1:80 ", "tcp://127.0.0.1:80", "[::1]:70000", "127.0.0.1:0x50", "[]"}).Draw(c.T, "address")
		default: // an address that lost its port
			addr = fmt.Sprintf("127.0.%d.%d%s", rapid.IntRange(0, 255).Draw(c.T, "a"), rapid.IntRange(0, 255).Draw(c.T, "b"),
				rapid.SampledFrom([]string{"", ":x", ":65536", ":1:1", "]", ":+-1", "\x00:1"}).Draw(c.T, "port"))
		}
		c.Note("%q", addr)
		c.NonTrivial([]byte(addr))
		var peer *p2p.Peer
		var err error
		c.Must("NewPeer", func() { peer, err = p2p.NewPeer(n.Syncer, addr) })
		if err == nil || peer != nil {
			c.Fatalf("a connection to %q, where nobody is, gives a peer: %v, error: %v", addr, peer != nil, err)
		}
		noFatal(c)
	})

	// Nodes, in processes of their own, connect to each other
	p.Part("processes", kit.Budget{Quick: 4, Thorough: 60, Shards: 4, Journal: true, Shrink: 5 * time.Second}, func(c *kit.Case) {
		k := rapid.IntRange(1, 3).Draw(c.T, "processes")
		c.Note("%d processes connect to this one and to a scripted one", k)
		c.NonTrivial()
		scripted := newRemote(nil)
		defer scripted.close()
		ln, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			panic("environment: can't listen: " + err.Error())
		}
		defer ln.Close()
		var mu sync.Mutex
		var errs []error
		go func() {
			for {
				conn, err := ln.Accept()
				if err != nil {
					return
				}
				go func() {
					var err error
					o := kit.Do(func() { _, err = p2p.AcceptNewPeer(conn) })
					if !o.OK() {
						err = fmt.Errorf("AcceptNewPeer: %v", o)
					}
					mu.Lock()
					errs = append(errs, err)
					mu.Unlock()
					time.Sleep(time.Second)
					conn.Close()
				}()
			}
		}()
		var wg sync.WaitGroup
		out := make([]string, k)
		for i := range out {
			wg.Add(1)
			go func() {
				defer wg.Done()
				cmd := exec.Command(os.Args[0], "-test.run=^TestHandChild$", "-test.count=1")
				cmd.Env = append(os.Environ(), "VERIF_CHILD="+ln.Addr().String()+" "+scripted.addr)
				b, err := cmd.CombinedOutput()
				out[i] = string(b)
				if err != nil {
					out[i] += err.Error()
				}
			}()
		}
		wg.Wait()
		for _, o := range out {
			if !strings.Contains(o, "ALL CONNECTED") {
				c.Fatalf("nodes can't connect to each other: %s", brief([]byte(o)))
			}
		}
		if !eventually(func() bool { mu.Lock(); defer mu.Unlock(); return len(errs) >= 5*k }) {
			c.Fatalf("%d of %d connections are taken", len(errs), 5*k)
		}
		for _, err := range errs {
			if err != nil {
				c.Fatalf("a connection from another process is refused: %v", err)
			}
		}
		seen := map[uint64]bool{}
		for _, l := range scripted.all() {
			if seen[l.hand.Nonce] {
				c.Fatalf("two processes, or one twice, use the nonce %x", l.hand.Nonce)
			}
			seen[l.hand.Nonce] = true
		}
		if len(seen) != 5*k {
			c.Fatalf("%d of %d connections arrive", len(seen), 5*k)
		}
		noFatal(c)
	})

	// A peer that takes its time
	p.Part("slow", kit.Budget{Quick: 24, Thorough: 400, Shards: 24, Journal: true, Shrink: time.Second}, func(c *kit.Case) {
		incoming := rapid.Bool().Draw(c.T, "incoming")
		s := ref.Shake{Version: 1, Genesis: genesis, Agent: "slow"}
		h := ref.Hand{Version: 1, Genesis: genesis, Agent: "slow", Sender: ref.Addr{IP: []byte{1, 2, 3, 4}}, Receiver: ref.Addr{IP: []byte{1, 2, 3, 4}}, Nonce: 1}
		b := ref.Frame(ref.TShake, s.Bytes())
		if incoming {
			b = ref.Frame(ref.THand, h.Bytes())
		}
		sent := rapid.IntRange(0, len(b)-1).Draw(c.T, "sent")
		if rapid.IntRange(0, 3).Draw(c.T, "silent") == 0 {
			sent = 0
		}
		drip := rapid.Bool().Draw(c.T, "drip")
		c.Note("incoming %v: %d of %d bytes, then silence, or a byte a second: %v", incoming, sent, len(b), drip)
		c.NonTrivial()
		slowly := func(l *link) {
			l.Write(b[:sent])
			for i := sent; drip && i < len(b)-1 && i < sent+40; i++ {
				time.Sleep(time.Second)
				if _, err := l.Write(b[i : i+1]); err != nil {
					return
				}
			}
		}
		start := time.Now()
		var err error
		var l *link
		if incoming {
			var conn net.Conn
			l, conn = pair()
			defer l.hangUp()
			go slowly(l)
			go l.listen()
			c.Must("AcceptNewPeer", func() { _, err = p2p.AcceptNewPeer(conn) })
		} else {
			r := newRemote(func(l *link) error {
				if err := l.takeHand(); err != nil {
					return err
				}
				go slowly(l)
				return nil
			})
			defer r.close()
			c.Must("NewPeer", func() { _, err = p2p.NewPeer(newNode(newModel(), false, r.addr).Syncer, r.addr) })
			eventually(func() bool { return len(r.all()) > 0 })
			l = r.all()[0]
		}
		took := time.Since(start)
		if err == nil {
			c.Fatalf("half a handshake is good enough")
		}
		if took > 45*time.Second {
			c.Fatalf("it took %v to give up", took)
		}
		if !eventually(l.isClosed) {
			c.Fatalf("the connection stays open after %v", took)
		}
		noFatal(c)
	})

	// and one that has nothing to say afterwards
	p.Part("idle", kit.Budget{Quick: 8, Thorough: 60, Shards: 8, Journal: true, Shrink: time.Second}, func(c *kit.Case) {
		incoming := rapid.Bool().Draw(c.T, "incoming")
		idle := time.Duration(rapid.IntRange(11000, 14000).Draw(c.T, "idle")) * time.Millisecond
		c.Note("incoming %v: %v of silence after the handshake", incoming, idle)
		c.NonTrivial()
		var l *link
		var peer *p2p.Peer
		var err error
		if incoming {
			var conn net.Conn
			l, conn = pair()
			defer l.hangUp()
			h := ref.Hand{Version: 1, Genesis: genesis, Sender: ref.Addr{IP: []byte{1, 2, 3, 4}}, Receiver: ref.Addr{IP: []byte{1, 2, 3, 4}}, Nonce: 1}
			l.Write(ref.Frame(ref.THand, h.Bytes()))
			go l.listen()
			c.Must("AcceptNewPeer", func() { peer, err = p2p.AcceptNewPeer(conn) })
		} else {
			r := newRemote(nil)
			defer r.close()
			n := newNode(newModel(), false, r.addr)
			c.Must("NewPeer", func() { peer, err = p2p.NewPeer(n.Syncer, r.addr) })
			if err == nil {
				l = r.all()[0]
			}
		}
		if err != nil {
			c.Fatalf("a good handshake fails: %v", err)
		}
		peer.Start()
		time.Sleep(idle)
		if l.isClosed() {
			c.Fatalf("the connection was closed")
		}
		if !incoming && !l.barrier(1, 2) {
			c.Fatalf("a ping isn't answered after %v", idle)
		}
		peer.Close()
		c.Must("WaitForDisconnect", peer.WaitForDisconnect)
		noFatal(c)
	})
}

// TestHandChild is a node in a process of its own.
func TestHandChild(t *testing.T) {
	f := strings.Fields(os.Getenv("VERIF_CHILD"))
	if len(f) != 2 {
		t.Skip()
	}
	for _, addr := range f {
		for i := 0; i < 5; i++ {
			peer, err := p2p.NewPeer(newNode(newModel(), false, addr).Syncer, addr)
			if err != nil {
				fmt.Println("WRONG", addr, err)
				return
			}
			peer.Close()
		}
	}
	fmt.Println("ALL CONNECTED")
}

// pair is a connection: the far end, and the end for gringo.
func pair() (*link, net.Conn) {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic("environment: can't listen: " + err.Error())
	}
	defer ln.Close()
	far, err := net.Dial("tcp", ln.Addr().String())
	if err != nil {
		panic("environment: can't dial: " + err.Error())
	}
	near, err := ln.Accept()
	if err != nil {
		panic("environment: can't accept: " + err.Error())
	}
	return &link{Conn: far}, near
}

func brief(b []byte) string {
	s := fmt.Sprintf("%d bytes %x", len(b), b[:min(len(b), 300)])
	if len(b) > 300 {
		s += "..."
	}
	return strings.TrimSpace(s)
}
