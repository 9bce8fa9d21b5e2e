package net

import (
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/dblokhin/gringo/consensus"
	"github.com/dblokhin/gringo/p2p"
	"pgregory.net/rapid"

	"verif/harness/kit"
	"verif/harness/msgs"
	"verif/harness/ref"
)

// activity are the goroutines that run gringo's p2p code, without those that
// the check itself runs it from.
func activity() (out []string) {
	buf := make([]byte, 8<<20)
	buf = buf[:runtime.Stack(buf, true)]
	for _, g := range strings.Split(string(buf), "\n\n") {
		if strings.Contains(g, "github.com/dblokhin/gringo/p2p") {
			out = append(out, g)
		}
	}
	return
}

// sockets counts the open ones.
func sockets() (n int) {
	l, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		panic("environment: " + err.Error())
	}
	for _, e := range l {
		if to, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && strings.HasPrefix(to, "socket:") {
			n++
		}
	}
	return
}

var endings = []string{"closed here", "disconnected here", "closed twice", "hang-up", "reset", "half closed", "half a frame", "wrong magic", "too long", "unknown type",
	"bad body", "bad handshake", "silent handshake", "error message", "closed while sending", "hang-up while asking", "doesn't read", "never started", "offends"}

// TestC33: connections that have ended are gone.
func TestC33(t *testing.T) {
	p := kit.New(t, "C33", "a case in which connections end in at least three ways",
		"what is gone is told from the process's goroutines and sockets after at most 25 seconds", "the collector of garbage is off meanwhile: it might close what was left open")
	defer debug.SetGCPercent(debug.SetGCPercent(-1))

	// nothing left over: base is the number of sockets before the case
	gone := func(c *kit.Case, base int) {
		var left []string
		n := 0
		if eventually(func() bool { left, n = activity(), sockets(); return len(left) == 0 && n <= base }) {
			return
		}
		c.Fatalf("%d sockets more than before; %d goroutines in the p2p package:\n%.3000s", n-base, len(left), strings.Join(left, "\n\n"))
	}

	p.Part("peers", kit.Budget{Quick: 50, Thorough: 2500, Shards: 1, Journal: true, Shrink: 60 * time.Second}, func(c *kit.Case) {
		// a connection that ended before, for its nonce
		r := newRemote(nil)
		var own uint64
		c.Must("NewPeer", func() {
			peer, err := p2p.NewPeer(newNode(newModel(), false, r.addr).Syncer, r.addr)
			if err != nil {
				c.Fatalf("a good handshake fails: %v", err)
			}
			peer.Close()
			own = r.all()[0].hand.Nonce
		})
		r.close()
		runtime.GC()
		if !eventually(func() bool { return len(activity()) == 0 }) {
			c.Fatalf("activity after closing a connection: %v", activity())
		}
		base := sockets()
		k := rapid.IntRange(4, 40).Draw(c.T, "connections")
		kinds := map[string]bool{}
		var ends []string
		// those take as long as the node is patient
		silent := 3 * min(1, rapid.IntRange(0, 5).Draw(c.T, "silent"))
		for i := 0; i < k; i++ {
			e := rapid.SampledFrom(endings).Draw(c.T, "end")
			if e == "silent handshake" {
				if silent++; silent > 3 {
					e = "hang-up"
				}
			}
			ends = append(ends, e)
			kinds[e] = true
			c.Class("%s", e)
		}
		accept := rapid.IntRange(0, 8).Draw(c.T, "accepted")
		c.Note("%d connections: %v; %d accepted", k, ends, accept)
		if len(kinds) > 2 {
			c.NonTrivial()
		}
		m := newModel()
		many := make([]ref.Header, ref.MaxHeaders)
		for i := range many {
			many[i] = ref.Header{Version: 1, EdgeBits: 29, Edges: make([]uint32, 42)}
		}
		m.answer = func([][]byte) []ref.Header { return many }
		n := newNode(m, false)
		typ := uint8(rapid.SampledFrom([]int{ref.TPing, ref.THeader, ref.THeaders, ref.TAddrs, ref.TGetAddrs, ref.TBlock, ref.TGetHeaders}).Draw(c.T, "bad type"))
		bad := []byte{0xff, 0xff, 0xff}[:rapid.IntRange(1, 3).Draw(c.T, "bad body")]

		var mu sync.Mutex
		var problems []string
		problem := func(format string, args ...any) {
			mu.Lock()
			defer mu.Unlock()
			problems = append(problems, fmt.Sprintf(format, args...))
		}
		var wg sync.WaitGroup
		for i, end := range ends {
			i, end := i, end
			wg.Add(1)
			go func() {
				defer wg.Done()
				release := make(chan struct{})
				var once sync.Once
				free := func() { once.Do(func() { close(release) }) }
				defer free()
				r := newRemote(func(l *link) error {
					switch end {
					case "bad handshake":
						l.takeHand()
						l.Write(ref.Frame(ref.TPing, nil))
						io.Copy(io.Discard, l)
						return errors.New("done")
					case "silent handshake":
						l.takeHand()
						io.Copy(io.Discard, l)
						return errors.New("done")
					}
					if err := usual(l); err != nil {
						return err
					}
					if end == "doesn't read" {
						<-release
					}
					return nil
				})
				defer r.close()
				o := kit.Do(func() {
					peer, err := p2p.NewPeer(n.Syncer, r.addr)
					if end == "bad handshake" || end == "silent handshake" {
						if err == nil {
							problem("connection %d: a %s succeeds", i, end)
							peer.Close()
						}
						return
					}
					if err != nil {
						problem("connection %d: %v", i, err)
						return
					}
					if end == "never started" {
						peer.Close()
						peer.WaitForDisconnect()
						return
					}
					peer.Start()
					peer.SendPing()
					var l *link
					if !eventually(func() bool { l = r.live(); return l != nil || end == "doesn't read" }) {
						problem("harness: connection %d isn't seen", i)
						peer.Close()
						return
					}
					if end == "doesn't read" {
						l = r.all()[0]
					}
					write := func(b []byte) { l.Write(b) }
					switch end {
					case "closed here":
						peer.Close()
					case "disconnected here":
						peer.Disconnect(errors.New("enough"))
					case "closed twice":
						var both sync.WaitGroup
						both.Add(2)
						for j := 0; j < 2; j++ {
							go func() { defer both.Done(); peer.Close() }()
						}
						both.Wait()
					case "hang-up":
						l.hangUp()
					case "reset":
						l.Conn.(*net.TCPConn).SetLinger(0)
						l.hangUp()
					case "half closed":
						l.Conn.(*net.TCPConn).CloseWrite()
					case "half a frame":
						write(ref.FrameLen(ref.TPing, 16, []byte{1, 2, 3}))
						l.hangUp()
					case "wrong magic":
						write(msgs.Cat([]byte{0x54, 0x35}, ref.Frame(ref.TPing, ref.Status(1, 1))[2:]))
					case "too long":
						write(ref.FrameLen(ref.TPing, ref.MaxMsg+1, nil))
					case "unknown type":
						write(ref.Frame(200, nil))
					case "bad body":
						write(ref.Frame(typ, bad))
					case "offends":
						n.Pool.Add(r.addr)
						pi := n.Pool.PeerInfo(r.addr)
						pi.Lock()
						pi.Peer = peer
						pi.Unlock()
						h := ref.Header{Version: 1, EdgeBits: 29, Edges: make([]uint32, 42), Nonce: 1}
						write(ref.Frame(ref.THeaders, ref.Headers([]ref.Header{h})))
					case "error message":
						write(ref.Frame(ref.TError, ref.PeerError(100, "go away")))
						l.hangUp()
					case "closed while sending":
						var senders sync.WaitGroup
						for j := 0; j < 3; j++ {
							senders.Add(1)
							go func() {
								defer senders.Done()
								for s := 0; s < 30; s++ {
									peer.SendBlockRequest(make(consensus.Hash, 32))
								}
							}()
						}
						peer.Close()
						senders.Wait()
					case "hang-up while asking":
						for j := 0; j < 5; j++ {
							write(ref.Frame(ref.TGetHeaders, ref.Locator(nil)))
						}
						l.Conn.(*net.TCPConn).SetLinger(0)
						l.hangUp()
					case "doesn't read":
						l.SetWriteDeadline(time.Now().Add(300 * time.Millisecond))
						for j := 0; j < 200; j++ {
							if _, err := l.Write(ref.Frame(ref.TGetHeaders, ref.Locator(nil))); err != nil {
								break
							}
						}
						peer.Close()
					}
					peer.WaitForDisconnect()
				})
				if !o.OK() {
					problem("connection %d, %s: %v", i, end, o)
				}
				// gringo has to hang up itself
				free()
				for _, l := range r.all() {
					l := l
					if end == "bad handshake" || end == "silent handshake" {
						continue
					}
					if !eventually(l.isClosed) {
						problem("connection %d, %s: it is still open for the peer", i, end)
					}
				}
			}()
		}
		for i := 0; i < accept; i++ {
			i := i
			wg.Add(1)
			go func() {
				defer wg.Done()
				ln, err := net.Listen("tcp", "127.0.0.1:0")
				if err != nil {
					problem("harness: %v", err)
					return
				}
				defer ln.Close()
				out, err := net.Dial("tcp", ln.Addr().String())
				if err != nil {
					problem("harness: %v", err)
					return
				}
				defer out.Close()
				in, err := ln.Accept()
				if err != nil {
					problem("harness: %v", err)
					return
				}
				h := ref.Hand{Version: 1, Genesis: genesis, Sender: ref.Addr{IP: []byte{1, 2, 3, 4}}, Receiver: ref.Addr{IP: []byte{1, 2, 3, 4}}, Nonce: 1}
				switch i % 4 {
				case 1:
					h.Genesis[0] ^= 1
				case 2:
					h.Version = 9
				case 3:
					h.Nonce = own
				}
				out.Write(ref.Frame(ref.THand, h.Bytes()))
				o := kit.Do(func() {
					peer, err := p2p.AcceptNewPeer(in)
					if (err == nil) != (i%4 == 0) {
						problem("accepted connection %d: %v", i, err)
					}
					if err == nil {
						peer.Start()
						if i%8 == 0 {
							peer.Close()
						} else {
							out.Close()
						}
						peer.WaitForDisconnect()
					}
				})
				if !o.OK() {
					problem("accepted connection %d: %v", i, o)
				}
				defer runtime.KeepAlive(in)
				out.SetReadDeadline(time.Now().Add(patience))
				if _, err := io.Copy(io.Discard, out); err != nil && errors.Is(err, os.ErrDeadlineExceeded) {
					problem("accepted connection %d is still open for the peer", i)
				}
			}()
		}
		wg.Wait()
		if len(problems) > 0 {
			c.Fatalf("%s", strings.Join(problems, "\n"))
		}
		gone(c, base)
		noFatal(c)
	})

	// a node whose peers come and go, and that is stopped
	p.Part("node", kit.Budget{Quick: 3, Thorough: 120, Shards: 1, Journal: true, Shrink: 60 * time.Second}, func(c *kit.Case) {
		runtime.GC()
		base := sockets()
		k := rapid.IntRange(3, 6).Draw(c.T, "peers")
		var acts []string
		var addrs []string
		var remotes []*remote
		for i := 0; i < k; i++ {
			act := rapid.SampledFrom([]string{"hang-up", "reset", "garbage", "banned", "stays", "half closed", "bad handshake"}).Draw(c.T, "act")
			acts = append(acts, act)
			r := newRemote(func(l *link) error {
				if act == "bad handshake" {
					l.takeHand()
					return errors.New("enough")
				}
				return usual(l)
			})
			remotes = append(remotes, r)
			addrs = append(addrs, r.addr)
		}
		linger := rapid.IntRange(0, 2500).Draw(c.T, "ms before the stop")
		c.Note("peers that %v, stopped %d ms after they were all connected", acts, linger)
		c.NonTrivial()
		n := newNode(newModel(), true, addrs...)
		n.start()
		ok := eventually(func() bool {
			for _, r := range remotes {
				if len(r.all()) == 0 {
					return false
				}
			}
			return true
		})
		if !ok {
			n.stop()
			c.Fatalf("the node doesn't connect to all its peers")
		}
		for i, r := range remotes {
			var l *link
			if acts[i] == "bad handshake" || !eventually(func() bool { l = r.live(); return l != nil }) {
				continue
			}
			switch acts[i] {
			case "hang-up":
				l.hangUp()
			case "reset":
				l.Conn.(*net.TCPConn).SetLinger(0)
				l.hangUp()
			case "garbage":
				l.Write([]byte("garbage garbage garbage"))
			case "banned":
				h := ref.Header{Version: 1, EdgeBits: 29, Edges: make([]uint32, 42), Nonce: 1}
				l.Write(ref.Frame(ref.THeaders, ref.Headers([]ref.Header{h})))
			case "half closed":
				l.Conn.(*net.TCPConn).CloseWrite()
			}
		}
		time.Sleep(time.Duration(linger) * time.Millisecond)
		n.stop()
		if !n.stopped() {
			c.Fatalf("Run doesn't return")
		}
		// the node has to hang up
		for i, r := range remotes {
			for _, l := range r.all() {
				if acts[i] != "bad handshake" && !eventually(l.isClosed) {
					c.Fatalf("the connection to peer %d stays open", i)
				}
			}
		}
		for _, r := range remotes {
			r.close()
		}
		gone(c, base)
		noFatal(c)
	})
}
