SPECS = []
def spec(id, property, edits, package, demo, needs, breaks, **k):
    SPECS.append(dict(id=id, property=property, edits=edits, package=package, demo=demo, needs=needs, breaks=breaks, **k))

COMMON = '''
package p2p

import (
	"errors"
	"net"
	"sync"
	"testing"
	"time"

	"github.com/dblokhin/gringo/chain"
	"github.com/dblokhin/gringo/consensus"
)

var _ = errors.New
var _ = time.Second

type fakeChain struct {
	sync.RWMutex
	mu     sync.Mutex
	height uint64
	blocks int
	heads  int
	bad    bool
}

func (c *fakeChain) Genesis() consensus.Block              { return chain.Testnet4 }
func (c *fakeChain) TotalDifficulty() consensus.Difficulty { return 5 }
func (c *fakeChain) Height() uint64                        { return c.height }
func (c *fakeChain) GetBlockHeaders(l consensus.Locator) []consensus.BlockHeader {
	return nil
}
func (c *fakeChain) GetBlock(h consensus.Hash) *consensus.Block { return nil }
func (c *fakeChain) ProcessHeaders(h []consensus.BlockHeader) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.heads++
	if c.bad {
		return errors.New("bad")
	}
	return nil
}
func (c *fakeChain) ProcessBlock(b *consensus.Block) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.blocks++
	if c.bad {
		return errors.New("bad")
	}
	return nil
}

// remote is a peer: it shakes hands and counts what it gets.
type remote struct {
	ln    net.Listener
	mu    sync.Mutex
	conns []net.Conn
	got   map[uint8]int
	ended map[net.Conn]bool
	read  bool
}

func newRemote(t *testing.T) *remote {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	r := &remote{ln: ln, got: map[uint8]int{}, ended: map[net.Conn]bool{}, read: true}
	go func() {
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			go func() {
				var h hand
				if _, err := ReadMessage(c, &h); err != nil {
					c.Close()
					return
				}
				s := shake{Version: 1, Capabilities: 7, TotalDifficulty: 3, UserAgent: "remote", Genesis: chain.Testnet4.Hash()}
				WriteMessage(c, &s)
				r.mu.Lock()
				r.conns = append(r.conns, c)
				r.mu.Unlock()
				for {
					var h Header
					if err := h.Read(c); err != nil {
						break
					}
					buf := make([]byte, h.Len)
					for n := 0; n < len(buf); {
						k, err := c.Read(buf[n:])
						if err != nil {
							break
						}
						n += k
					}
					r.mu.Lock()
					r.got[h.Type]++
					r.mu.Unlock()
				}
				r.mu.Lock()
				r.ended[c] = true
				r.mu.Unlock()
			}()
		}
	}()
	return r
}

func (r *remote) addr() string { return r.ln.Addr().String() }

// conn is the i-th connection, or nil.
func (r *remote) conn(i int) net.Conn {
	r.mu.Lock()
	defer r.mu.Unlock()
	if i < len(r.conns) {
		return r.conns[i]
	}
	return nil
}

func (r *remote) count(typ uint8) int {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.got[typ]
}

func (r *remote) isEnded(c net.Conn) bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.ended[c]
}

func (r *remote) live() (n int) {
	r.mu.Lock()
	defer r.mu.Unlock()
	for _, c := range r.conns {
		if !r.ended[c] {
			n++
		}
	}
	return
}

func wait(d time.Duration, f func() bool) bool {
	for end := time.Now().Add(d); time.Now().Before(end); time.Sleep(5 * time.Millisecond) {
		if f() {
			return true
		}
	}
	return f()
}

func testBlock(height, td uint64, nonce uint32) *consensus.Block {
	b := &consensus.Block{}
	b.Header.Version = 1
	b.Header.Height = height
	b.Header.TotalDifficulty = consensus.Difficulty(td)
	z := make([]byte, 32)
	b.Header.Previous, b.Header.PreviousRoot, b.Header.UTXORoot, b.Header.RangeProofRoot, b.Header.KernelRoot = z, z, z, z, z
	b.Header.TotalKernelOffset = z
	b.Header.Timestamp = time.Unix(1500000000, 0)
	b.Header.POW.EdgeBits = 29
	b.Header.POW.Nonces = make([]uint32, 42)
	b.Header.POW.Nonces[0] = nonce
	return b
}

'''
def demo(body): return COMMON + body

spec("C22-newer-version", "C22",
 [("p2p/handshake.go", '''func (h *hand) Read(r io.Reader) error {

	if err := binary.Read(r, binary.BigEndian, &h.Version); err != nil {
		return err
	}

	if h.Version != consensus.ProtocolVersion {''','''func (h *hand) Read(r io.Reader) error {

	if err := binary.Read(r, binary.BigEndian, &h.Version); err != nil {
		return err
	}

	if h.Version < consensus.ProtocolVersion {''')],
 "p2p", demo('''
func TestDemo(t *testing.T) {
	a, b := net.Pipe()
	go func() {
		h := hand{Version: 2, Capabilities: 7, Nonce: 1, TotalDifficulty: 1, SenderAddr: &net.TCPAddr{IP: net.IPv4(1, 2, 3, 4), Port: 5},
			ReceiverAddr: &net.TCPAddr{IP: net.IPv4(1, 2, 3, 4), Port: 5}, UserAgent: "x", Genesis: chain.Testnet4.Hash()}
		WriteMessage(b, &h)
		var s shake
		ReadMessage(b, &s)
		b.Close()
	}()
	if p, err := AcceptNewPeer(a); err == nil {
		t.Fatalf("a peer of version %d is accepted", p.Info.Version)
	}
}
'''), "a peer that connects to us with a later protocol version", "A connection is accepted though the versions differ.")

spec("C22-own-nonce", "C22",
 [("p2p/server.go", "	for _, v := range n.list {\n", "	for _, v := range n.list[:n.idx] {\n")],
 "p2p", demo('''
func TestDemo(t *testing.T) {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	res := make(chan error, 1)
	go func() {
		c, err := ln.Accept()
		if err != nil {
			res <- nil
			return
		}
		_, err = AcceptNewPeer(c)
		res <- err
	}()
	_, err = NewPeer(&Syncer{}, ln.Addr().String())
	if got := <-res; got == nil || err == nil {
		t.Fatal("we connect to ourselves")
	}
}
'''), "a connection to ourselves, with the nonce of the last hand sent", "A connection to ourselves isn't detected.")

spec("C22-lost-capabilities", "C22",
 [("p2p/peer.go", '''	p.Info.Version = hand.Version
	p.Info.Capabilities = hand.Capabilities
''','''	p.Info.Version = hand.Version
	p.Info.Capabilities = hand.Capabilities & consensus.CapFullNode
''')],
 "p2p", demo('''
func TestDemo(t *testing.T) {
	a, b := net.Pipe()
	go func() {
		h := hand{Version: 1, Capabilities: 1 << 20 | 1, Nonce: 1, TotalDifficulty: 1, SenderAddr: &net.TCPAddr{IP: net.IPv4(1, 2, 3, 4), Port: 5},
			ReceiverAddr: &net.TCPAddr{IP: net.IPv4(1, 2, 3, 4), Port: 5}, UserAgent: "x", Genesis: chain.Testnet4.Hash()}
		WriteMessage(b, &h)
		var s shake
		ReadMessage(b, &s)
	}()
	p, err := AcceptNewPeer(a)
	if err != nil || p.Info.Capabilities != 1<<20|1 {
		t.Fatal(err, p)
	}
}
'''), "an incoming peer with capabilities that we don't know", "The peer's capabilities aren't those that it sent.")

spec("C23-status-and", "C23",
 [("p2p/sync.go", "if peerInfo.TotalDifficulty < msg.Header.TotalDifficulty || peerInfo.Height < msg.Header.Height {",
   "if peerInfo.TotalDifficulty < msg.Header.TotalDifficulty && peerInfo.Height < msg.Header.Height {")],
 "p2p", demo('''
func TestDemo(t *testing.T) {
	s := NewSyncer([]string{"127.0.0.1:4444"}, &fakeChain{height: 100}, nil)
	pi := s.Pool.PeerInfo("127.0.0.1:4444")
	pi.Height, pi.TotalDifficulty = 10, 50
	s.ProcessMessage(&Peer{Addr: "127.0.0.1:4444"}, testBlock(10, 60, 1))
	if pi.TotalDifficulty != 60 {
		t.Fatal("still at", pi.TotalDifficulty)
	}
}
'''), "a block that has more total difficulty at the height where the peer is", "What we know of the peer isn't updated by its block.")

spec("C23-zero-pong", "C23",
 [("p2p/sync.go", '''	case *Pong:
		// update peer info
		peerInfo.Lock()
		peerInfo.TotalDifficulty = msg.TotalDifficulty
		peerInfo.Height = msg.Height
''','''	case *Pong:
		// update peer info
		peerInfo.Lock()
		if msg.Height > peerInfo.Height {
			peerInfo.TotalDifficulty = msg.TotalDifficulty
			peerInfo.Height = msg.Height
		}
''')],
 "p2p", demo('''
func TestDemo(t *testing.T) {
	r := newRemote(t)
	s := NewSyncer([]string{r.addr()}, &fakeChain{height: 100}, nil)
	p, err := NewPeer(s, r.addr())
	if err != nil {
		t.Fatal(err)
	}
	p.Start()
	wait(5*time.Second, func() bool { return r.conn(0) != nil })
	WriteMessage(r.conn(0), &Pong{Ping{TotalDifficulty: 9, Height: 9}})
	WriteMessage(r.conn(0), &Pong{Ping{TotalDifficulty: 12, Height: 8}})
	pi := s.Pool.PeerInfo(r.addr())
	if !wait(5*time.Second, func() bool { pi.Lock(); defer pi.Unlock(); return pi.Height == 8 && pi.TotalDifficulty == 12 }) {
		t.Fatal("the peer is taken to be at", pi.Height)
	}
}
'''), "a peer that tells a lower height in a pong than before (after a reorganisation)", "What we know of the peer isn't what it told last.")

spec("C24-ban-while-connecting", "C24",
 [("p2p/pool.go", '''	// update peers table
	peerInfo.Peer = peerConn
	peerInfo.Status = psConnected
''','''	// update peers table
	peerInfo.Peer = peerConn
	peerInfo.Status = psConnected
	pp.ptmu.Lock()
	pp.PeersTable[addr] = peerInfo
	pp.ptmu.Unlock()
''')],
 "p2p", demo('''
func TestDemo(t *testing.T) {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	s := NewSyncer([]string{ln.Addr().String()}, &fakeChain{}, nil)
	go s.Run()
	defer s.Stop()
	c, err := ln.Accept()
	if err != nil {
		t.Fatal(err)
	}
	var h hand
	ReadMessage(c, &h)
	done := make(chan bool)
	go func() { s.Pool.Ban(ln.Addr().String()); close(done) }()
	time.Sleep(500 * time.Millisecond)
	WriteMessage(c, &shake{Version: 1, Capabilities: 7, TotalDifficulty: 3, UserAgent: "remote", Genesis: chain.Testnet4.Hash()})
	<-done
	time.Sleep(200 * time.Millisecond)
	if s.Pool.PeerInfo(ln.Addr().String()) != nil {
		t.Fatal("the banned peer is in the table")
	}
}
'''), "a ban that comes while the connection to the peer is being made", "The banned peer comes back into the table.")

spec("C24-headers-after-first", "C24",
 [("p2p/sync.go", '''		if err := s.Chain.ProcessHeaders(msg.Headers); err != nil {
			// ban peer ?
''','''		err := s.Chain.ProcessHeaders(msg.Headers)
		if err != nil && len(msg.Headers) > 1 {
			// ban peer ?
''')],
 "p2p", demo('''
func TestDemo(t *testing.T) {
	s := NewSyncer([]string{"127.0.0.1:4444"}, &fakeChain{height: 100, bad: true}, nil)
	s.ProcessMessage(&Peer{Addr: "127.0.0.1:4444"}, &BlockHeaders{Headers: []consensus.BlockHeader{testBlock(1, 1, 1).Header}})
	if s.Pool.PeerInfo("127.0.0.1:4444") != nil {
		t.Fatal("not banned")
	}
}
'''), "a list of headers that has a single, invalid header", "The peer isn't banned for it.")

spec("C25-any-capability", "C25",
 [("p2p/pool.go", "		if (peerInfo.Capabilities & capabilities) != capabilities {", "		if capabilities != consensus.CapUnknown && (peerInfo.Capabilities&capabilities) == 0 {")],
 "p2p", demo('''
func TestDemo(t *testing.T) {
	s := NewSyncer([]string{"127.0.0.1:4444"}, &fakeChain{}, nil)
	s.Pool.PeerInfo("127.0.0.1:4444").Capabilities = 1
	if n := len(s.Pool.Peers(7).peers); n != 0 {
		t.Fatal("a peer without the capabilities is listed")
	}
}
'''), "a peer that has some, but not all of the capabilities that were asked for", "It is listed.")

spec("C25-multicast-v6", "C25",
 [("p2p/pool.go", "	if netAddr.IP.IsMulticast() {", "	if ip := netAddr.IP.To4(); ip != nil && ip.IsMulticast() {")],
 "p2p", demo('''
func TestDemo(t *testing.T) {
	s := NewSyncer([]string{"[ff02::1]:4444"}, &fakeChain{}, nil)
	if s.Pool.PeerInfo("[ff02::1]:4444") != nil {
		t.Fatal("a multicast address is in the table")
	}
}
'''), "an IPv6 multicast address", "It gets into the table.")

spec("C26-failed-forgotten", "C26",
 [("p2p/pool.go", '''		if peer.Status == psFailedConn {
			return addr''','''		if peer.Status == psFailedConn && time.Since(peer.LastConn) < 24*time.Hour {
			return addr''')],
 "p2p", demo('''
func TestDemo(t *testing.T) {
	r := newRemote(t)
	s := NewSyncer([]string{r.addr()}, &fakeChain{}, nil)
	s.Pool.PeerInfo(r.addr()).Status = psFailedConn
	go s.Run()
	defer s.Stop()
	if !wait(20*time.Second, func() bool { return r.live() == 1 }) {
		t.Fatal("no connection to a peer that has failed once")
	}
}
'''), "a peer whose first connection failed", "The node never connects to it again.")

spec("C26-slot-of-banned", "C26",
 [("p2p/pool.go", '''		<-pp.pool
	}()

	return nil''','''		if peerInfo.Status == psDisconnected {
			<-pp.pool
		}
	}()

	return nil''')],
 "p2p", demo('''
func TestDemo(t *testing.T) {
	s := NewSyncer(nil, &fakeChain{}, nil)
	bad := newRemote(t)
	s.Pool.Add(bad.addr())
	go s.Run()
	defer s.Stop()
	if !wait(20*time.Second, func() bool { return bad.live() == 1 }) {
		t.Fatal("no connection")
	}
	s.Pool.Ban(bad.addr())
	var l []*remote
	for i := 0; i < 15; i++ {
		l = append(l, newRemote(t))
		s.Pool.Add(l[i].addr())
	}
	if !wait(60*time.Second, func() bool {
		n := 0
		for _, r := range l {
			n += r.live()
		}
		return n == 15
	}) {
		t.Fatal("fewer than 15 connections")
	}
}
'''), "a connected peer that is banned, and afterwards 15 good ones", "The node can't have 15 connections any more.")

spec("C27-send-after-close", "C27",
 [("p2p/peer.go", '''	select {
	case <-p.quit:
		logrus.Info("cannot send message, peer is shutting down")
	case p.sendQueue <- msg:
	}
''','''	if atomic.LoadInt32(&p.disconnect) != 0 {
		logrus.Info("cannot send message, peer is shutting down")
		return
	}

	p.sendQueue <- msg
''')],
 "p2p", demo('''
func TestDemo(t *testing.T) {
	for i := 0; i < 300; i++ {
		r := newRemote(t)
		s := NewSyncer([]string{r.addr()}, &fakeChain{}, nil)
		p, err := NewPeer(s, r.addr())
		if err != nil {
			t.Fatal(err)
		}
		p.Start()
		var wg sync.WaitGroup
		for k := 0; k < 4; k++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for j := 0; j < 20; j++ {
					p.SendPing()
				}
			}()
		}
		time.Sleep(time.Duration(i) * 10 * time.Microsecond)
		p.Close()
		done := make(chan bool)
		go func() { wg.Wait(); close(done) }()
		select {
		case <-done:
		case <-time.After(10 * time.Second):
			t.Fatal("sending doesn't return")
		}
		r.ln.Close()
	}
}
'''), "a connection that is closed while several goroutines send", "The senders block for ever.")

spec("C27-queue-order", "C27",
 [("p2p/peer.go", '''	case p.sendQueue <- msg:
	}
''','''	case p.sendQueue <- msg:
	default:
		// the peer is busy, don't wait for it
		go func() {
			select {
			case <-p.quit:
			case p.sendQueue <- msg:
			}
		}()
	}
''')],
 "p2p", demo('''
func TestDemo(t *testing.T) {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	bad := make(chan string, 1)
	go func() {
		c, err := ln.Accept()
		if err != nil {
			return
		}
		var h hand
		ReadMessage(c, &h)
		WriteMessage(c, &shake{Version: 1, Capabilities: 7, TotalDifficulty: 3, UserAgent: "remote", Genesis: chain.Testnet4.Hash()})
		for i := 0; i < 3000; i++ {
			var g GetBlock
			if _, err := ReadMessage(c, &g); err != nil {
				bad <- err.Error()
				return
			}
			if got := int(g.Hash[0])<<8 | int(g.Hash[1]); got != i {
				bad <- "out of order"
				return
			}
		}
		bad <- ""
	}()
	p, err := NewPeer(&Syncer{}, ln.Addr().String())
	if err != nil {
		t.Fatal(err)
	}
	p.sync = NewSyncer([]string{ln.Addr().String()}, &fakeChain{}, nil)
	p.Start()
	for i := 0; i < 3000; i++ {
		h := make([]byte, 32)
		h[0], h[1] = byte(i>>8), byte(i)
		p.SendBlockRequest(h)
	}
	if s := <-bad; s != "" {
		t.Fatal(s)
	}
}
'''), "messages sent faster than they are written", "A sender's messages go out in another order.")

spec("C28-full-pool", "C28",
 [("p2p/pool.go", '''		select {
		case <-pp.quit:
			break out

		case pp.pool <- struct{}{}:
			if err''','''		select {
		case <-pp.quit:
			break out

		default:
			// wait for a free slot
			pp.pool <- struct{}{}
			if err''')],
 "p2p", demo('''
func TestDemo(t *testing.T) {
	s := NewSyncer(nil, &fakeChain{}, nil)
	var l []*remote
	for i := 0; i < 16; i++ {
		l = append(l, newRemote(t))
		s.Pool.Add(l[i].addr())
	}
	done := make(chan bool)
	go func() { s.Run(); close(done) }()
	if !wait(60*time.Second, func() bool {
		n := 0
		for _, r := range l {
			n += r.live()
		}
		return n == 15
	}) {
		t.Fatal("fewer than 15 connections")
	}
	time.Sleep(1500 * time.Millisecond)
	s.Stop()
	select {
	case <-done:
	case <-time.After(30 * time.Second):
		t.Fatal("Run doesn't return")
	}
}
'''), "stopping while all 15 connections are up", "Run doesn't return and the connections stay open.")

spec("C28-young-connections", "C28",
 [("p2p/pool.go", '''	for _, pi := range pp.PeersTable {
		go func(peerInfo *peerInfo) {
			peerInfo.Lock()
''','''	for addr, pi := range pp.PeersTable {
		if _, ok := pp.ConnectedPeers[addr]; ok && pi.Capabilities == consensus.CapUnknown {
			continue
		}

		go func(peerInfo *peerInfo) {
			peerInfo.Lock()
''')],
 "p2p", demo('''
func TestDemo(t *testing.T) {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	s := NewSyncer([]string{ln.Addr().String()}, &fakeChain{}, nil)
	done := make(chan bool)
	go func() { s.Run(); close(done) }()
	c, err := ln.Accept()
	if err != nil {
		t.Fatal(err)
	}
	var h hand
	ReadMessage(c, &h)
	WriteMessage(c, &shake{Version: 1, Capabilities: 0, TotalDifficulty: 3, UserAgent: "remote", Genesis: chain.Testnet4.Hash()})
	time.Sleep(300 * time.Millisecond)
	s.Stop()
	<-done
	c.SetReadDeadline(time.Now().Add(10 * time.Second))
	for {
		if _, err := c.Read(make([]byte, 1000)); err != nil {
			if e, ok := err.(net.Error); ok && e.Timeout() {
				t.Fatal("the connection stays open")
			}
			return
		}
	}
}
'''), "a connected peer without capabilities when the node stops", "Its connection stays open.")

spec("C29-behind-in-both", "C29",
 [("p2p/pool.go", "if peerInfo.Height < block.Header.Height || peerInfo.TotalDifficulty < block.Header.TotalDifficulty {",
   "if peerInfo.Height < block.Header.Height && peerInfo.TotalDifficulty < block.Header.TotalDifficulty {")],
 "p2p", demo('''
func TestDemo(t *testing.T) {
	a, b := newRemote(t), newRemote(t)
	s := NewSyncer([]string{a.addr(), b.addr()}, &fakeChain{height: 10}, nil)
	go s.Run()
	defer s.Stop()
	if !wait(20*time.Second, func() bool { return a.count(consensus.MsgTypePing) == 1 && b.count(consensus.MsgTypePing) == 1 }) {
		t.Fatal("no connections")
	}
	WriteMessage(b.conn(0), &Ping{TotalDifficulty: 50, Height: 10})
	wait(5*time.Second, func() bool { return b.count(consensus.MsgTypePong) == 1 })
	WriteMessage(a.conn(0), testBlock(10, 60, 1))
	if !wait(5*time.Second, func() bool { return b.count(consensus.MsgTypeBlock) == 1 }) {
		t.Fatal("the block isn't passed on")
	}
}
'''), "a peer at the block's height with less total difficulty", "The block isn't sent to it.")

spec("C29-not-only-top", "C29",
 [("p2p/sync.go", "if msg.Header.Height == s.Chain.Height() {", "if msg.Header.Height >= s.Chain.Height() {")],
 "p2p", demo('''
func TestDemo(t *testing.T) {
	a, b := newRemote(t), newRemote(t)
	s := NewSyncer([]string{a.addr(), b.addr()}, &fakeChain{height: 10}, nil)
	go s.Run()
	defer s.Stop()
	if !wait(20*time.Second, func() bool { return a.count(consensus.MsgTypePing) == 1 && b.count(consensus.MsgTypePing) == 1 }) {
		t.Fatal("no connections")
	}
	WriteMessage(a.conn(0), testBlock(11, 60, 1))
	time.Sleep(time.Second)
	if b.count(consensus.MsgTypeBlock) > 0 {
		t.Fatal("a block that isn't at the top of the chain is passed on")
	}
}
'''), "an accepted block above the chain's height (an orphan)", "It is passed on.")

spec("C30-skip-unknown", "C30",
 [("p2p/peer.go", '''			exitError = fmt.Errorf("received unexpected message from peer: %v", header)
			break out
''','''			// later versions of the protocol have more of them
			if header.Type <= consensus.MsgTypeTransaction {
				exitError = fmt.Errorf("received unexpected message from peer: %v", header)
				break out
			}
''')],
 "p2p", demo('''
func TestDemo(t *testing.T) {
	r := newRemote(t)
	s := NewSyncer([]string{r.addr()}, &fakeChain{height: 100}, nil)
	p, err := NewPeer(s, r.addr())
	if err != nil {
		t.Fatal(err)
	}
	p.Start()
	wait(5*time.Second, func() bool { return r.conn(0) != nil })
	c := r.conn(0)
	h := Header{magic: consensus.MagicCode, Type: 77, Len: 0}
	h.Write(c)
	if !wait(5*time.Second, func() bool { return r.isEnded(c) }) {
		t.Fatal("still connected after a message of unknown type")
	}
}
'''), "a message of a type above all known ones", "The connection isn't ended.")

spec("C30-negative-length", "C30",
 [("p2p/peer.go", "		if header.Len > consensus.MaxMsgLen {", "		if int64(header.Len) > int64(consensus.MaxMsgLen) {")],
 "p2p", demo('''
func TestDemo(t *testing.T) {
	r := newRemote(t)
	s := NewSyncer([]string{r.addr()}, &fakeChain{height: 100}, nil)
	p, err := NewPeer(s, r.addr())
	if err != nil {
		t.Fatal(err)
	}
	p.Start()
	wait(5*time.Second, func() bool { return r.conn(0) != nil })
	c := r.conn(0)
	h := Header{magic: consensus.MagicCode, Type: consensus.MsgTypePing, Len: 1<<64 - 1}
	h.Write(c)
	if !wait(5*time.Second, func() bool { return r.isEnded(c) }) {
		t.Fatal("still connected")
	}
}
'''), "a frame whose length has the top bit set", "The node crashes.")
