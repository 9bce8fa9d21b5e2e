// Package net checks the peer-to-peer node over loopback TCP: real peers on the
// gringo side, scripted ones on the other, models of the chain and the mempool
// below.
package net

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"net"
	"runtime/debug"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/dblokhin/gringo/consensus"
	"github.com/dblokhin/gringo/p2p"
	"github.com/sirupsen/logrus"
	"pgregory.net/rapid"

	"verif/harness/conv"
	"verif/harness/gen"
	"verif/harness/kit"
	"verif/harness/ref"
)

func init() {
	// the node logs everything, as cmd/node does
	logrus.SetLevel(logrus.DebugLevel)
}

// genesis of testnet 4, the chain that gringo's handshake is about
var genesis = [32]byte{}

func init() {
	h := ref.Header{EdgeBits: 29, Edges: []uint32{
		0x46f3b4, 0x1135f8c, 0x1a1596f, 0x1e10f71, 0x41c03ea, 0x63fe8e7, 0x65af34f,
		0x73c16d3, 0x8216dc3, 0x9bc75d0, 0xae7d9ad, 0xc1cb12b, 0xc65e957, 0xf67a152,
		0xfac6559, 0x100c3d71, 0x11eea08b, 0x1225dfbb, 0x124d61a1, 0x132a14b4, 0x13f4ec38,
		0x1542d236, 0x155f2df0, 0x1577394e, 0x163c3513, 0x19349845, 0x19d46953, 0x19f65ed4,
		0x1a0411b9, 0x1a2fa039, 0x1a72a06c, 0x1b02ddd2, 0x1b594d59, 0x1b7bffd3, 0x1befe12e,
		0x1c82e4cd, 0x1d492478, 0x1de132a5, 0x1e578b3c, 0x1ed96855, 0x1f222896, 0x1fea0da6}}
	genesis = h.Hash()
}

// patience is how long something that has to happen may take.
const patience = 25 * time.Second

// eventually waits for f.
func eventually(f func() bool) bool { return within(patience, f) }

func within(d time.Duration, f func() bool) bool {
	end := time.Now().Add(d)
	for wait := time.Millisecond; ; {
		if f() {
			return true
		}
		if time.Now().After(end) {
			return false
		}
		time.Sleep(wait)
		if wait < 20*time.Millisecond {
			wait *= 2
		}
	}
}

// model is the blockchain and the mempool below the node. Contents decide what
// is valid: headers and blocks with an odd nonce and transactions with an odd
// first byte of their offset are not.
type model struct {
	sync.RWMutex
	mu         sync.Mutex
	td, height uint64
	answer     func(loc [][]byte) []ref.Header
	blocks     map[string]*consensus.Block
	calls      []string
	stop       bool // refuse to record
}

func newModel() *model { return &model{blocks: map[string]*consensus.Block{}} }

func (m *model) set(td, height uint64) {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.td, m.height = td, height
}

func (m *model) record(kind string, b []byte) {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.calls = append(m.calls, kind+" "+string(b))
}

func (m *model) log() []string {
	m.mu.Lock()
	defer m.mu.Unlock()
	return append([]string{}, m.calls...)
}

func (m *model) Genesis() consensus.Block { return consensus.Block{} }
func (m *model) TotalDifficulty() consensus.Difficulty {
	m.mu.Lock()
	defer m.mu.Unlock()
	return consensus.Difficulty(m.td)
}
func (m *model) Height() uint64 {
	m.mu.Lock()
	defer m.mu.Unlock()
	return m.height
}
func (m *model) GetBlockHeaders(loc consensus.Locator) []consensus.BlockHeader {
	var raw [][]byte
	for _, h := range loc.Hashes {
		raw = append(raw, h)
	}
	m.record("locator", bytes.Join(raw, nil))
	m.mu.Lock()
	defer m.mu.Unlock()
	var out []consensus.BlockHeader
	if m.answer != nil {
		for _, h := range m.answer(raw) {
			out = append(out, conv.Header(h))
		}
	}
	return out
}
func (m *model) GetBlock(hash consensus.Hash) *consensus.Block {
	m.record("get block", hash)
	m.mu.Lock()
	defer m.mu.Unlock()
	return m.blocks[string(hash)]
}

var errInvalid = errors.New("invalid, says the model")

func (m *model) ProcessHeaders(headers []consensus.BlockHeader) error {
	var l []ref.Header
	var err error
	for i := range headers {
		l = append(l, conv.BackHeader(&headers[i]))
		if headers[i].Nonce&1 == 1 {
			err = errInvalid
		}
	}
	m.record("headers", ref.Headers(l))
	return err
}
func (m *model) ProcessBlock(b *consensus.Block) error {
	x := ref.Block{Header: conv.BackHeader(&b.Header), Body: conv.BackBody(b.Inputs, b.Outputs, b.Kernels)}
	m.record("block", x.BytesAsGiven())
	if b.Header.Nonce&1 == 1 {
		return errInvalid
	}
	return nil
}
func (m *model) ProcessTx(t *consensus.Transaction) error {
	x := ref.Tx{Offset: t.KernelOffset, Body: conv.BackBody(t.Inputs, t.Outputs, t.Kernels)}
	m.record("tx", x.BytesAsGiven())
	if t.KernelOffset[0]&1 == 1 {
		return errInvalid
	}
	return nil
}

// frame is a message that gringo sent.
type frame struct {
	typ  uint8
	body []byte
	at   time.Time
}

// link is one connection from gringo, seen from the other side.
type link struct {
	net.Conn
	hand ref.Hand

	mu     sync.Mutex
	frames []frame
	broken string // what was wrong with the bytes that came
	closed bool   // gringo closed it
	shaken bool
	mine   bool // closed from this side
}

func readFrame(r io.Reader) (f frame, err error) {
	h := make([]byte, 11)
	if _, err = io.ReadFull(r, h); err != nil {
		return
	}
	if h[0] != 0x54 || h[1] != 0x34 {
		return f, fmt.Errorf("wrong magic in %x", h)
	}
	n := uint64(0)
	for _, b := range h[3:] {
		n = n<<8 | uint64(b)
	}
	if n > ref.MaxMsg {
		return f, fmt.Errorf("wrong length in %x", h)
	}
	f.typ, f.body = h[2], make([]byte, n)
	_, err = io.ReadFull(r, f.body)
	if err == io.EOF {
		err = io.ErrUnexpectedEOF
	}
	f.at = time.Now()
	return
}

// listen reads what gringo sends until the connection ends.
func (l *link) listen() {
	for {
		f, err := readFrame(l.Conn)
		l.mu.Lock()
		if err != nil {
			if _, isNet := err.(net.Error); !isNet && err != io.EOF && err != io.ErrUnexpectedEOF {
				l.broken = err.Error()
			}
			l.closed = true
			l.mu.Unlock()
			return
		}
		l.frames = append(l.frames, f)
		l.mu.Unlock()
	}
}

func (l *link) log() []frame {
	l.mu.Lock()
	defer l.mu.Unlock()
	return append([]frame{}, l.frames...)
}

func (l *link) count(typ uint8) (n int) {
	for _, f := range l.log() {
		if f.typ == typ {
			n++
		}
	}
	return
}

func (l *link) isClosed() bool {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.closed
}

func (l *link) isShaken() bool {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.shaken
}

func (l *link) hangUp() {
	l.mu.Lock()
	l.mine = true
	l.mu.Unlock()
	l.Conn.Close()
}

// barrier sends a ping with a mark and waits for the answer: whatever was sent
// before has been dealt with then. ok is false if the connection ended.
func (l *link) barrier(td, height uint64) (ok bool) {
	n := l.count(ref.TPong)
	if _, err := l.Write(ref.Frame(ref.TPing, ref.Status(td, height))); err != nil {
		return false
	}
	if !eventually(func() bool { return l.count(ref.TPong) > n || l.isClosed() }) {
		return false
	}
	return l.count(ref.TPong) > n
}

// remote is a scripted node.
type remote struct {
	ln   net.Listener
	addr string
	// greet does the handshake; nil: the usual one.
	greet func(l *link) error

	mu    sync.Mutex
	links []*link
}

// newRemote listens; 127.0.0.1 by default.
func newRemote(greet func(l *link) error) *remote {
	r := reserve(greet)
	go r.serve()
	return r
}

// reserve has an address, but doesn't answer until serve.
func reserve(greet func(l *link) error) *remote {
	var ln net.Listener
	var err error
	for i := 0; i < 50; i++ {
		ln, err = net.Listen("tcp", "127.0.0.1:0")
		if err == nil {
			return &remote{ln: ln, addr: ln.Addr().String(), greet: greet}
		}
		time.Sleep(100 * time.Millisecond)
	}
	panic("environment: can't listen: " + err.Error())
}

func (r *remote) serve() {
	for {
		c, err := r.ln.Accept()
		if err != nil {
			return
		}
		l := &link{Conn: c}
		r.mu.Lock()
		r.links = append(r.links, l)
		r.mu.Unlock()
		go func() {
			g := r.greet
			if g == nil {
				g = usual
			}
			if err := g(l); err != nil {
				l.Conn.Close()
				l.mu.Lock()
				l.closed = true
				l.mu.Unlock()
				return
			}
			l.mu.Lock()
			l.shaken = true
			l.mu.Unlock()
			l.listen()
		}()
	}
}

// usual greets as a good peer.
func usual(l *link) error { return greetAs(l, 1<<20, 7) }

func greetAs(l *link, td uint64, caps uint32) error {
	if err := l.takeHand(); err != nil {
		return err
	}
	s := ref.Shake{Version: 1, Caps: caps, TD: td, Agent: "remote", Genesis: genesis}
	_, err := l.Write(ref.Frame(ref.TShake, s.Bytes()))
	return err
}

func (l *link) takeHand() error {
	l.SetReadDeadline(time.Now().Add(patience))
	defer l.SetReadDeadline(time.Time{})
	f, err := readFrame(l.Conn)
	if err != nil {
		return err
	}
	h, ok := ref.ParseHand(f.body)
	if f.typ != ref.THand || !ok {
		l.mu.Lock()
		l.broken = fmt.Sprintf("bad hand: type %d %x", f.typ, f.body)
		l.mu.Unlock()
		return errors.New("bad hand")
	}
	l.hand = h
	return nil
}

func (r *remote) all() []*link {
	r.mu.Lock()
	defer r.mu.Unlock()
	return append([]*link{}, r.links...)
}

// live is the connection that is up, if any.
func (r *remote) live() *link {
	for _, l := range r.all() {
		if l.isShaken() && !l.isClosed() {
			return l
		}
	}
	return nil
}

func (r *remote) close() {
	r.ln.Close()
	for _, l := range r.all() {
		l.hangUp()
	}
}

// broken tells what was wrong with the bytes that gringo sent.
func (r *remote) broken() string {
	for _, l := range r.all() {
		l.mu.Lock()
		b := l.broken
		l.mu.Unlock()
		if b != "" {
			return b
		}
	}
	return ""
}

// node is a running gringo node.
type node struct {
	*p2p.Syncer
	*model
	ran  chan struct{}
	once sync.Once
	out  kit.Outcome
}

func (n *node) isBan(c *kit.Case, addr string) bool {
	x, ok := n.Pool.(interface{ IsBan(string) bool })
	if !ok {
		c.Fatalf("environment: the pool has no IsBan")
	}
	return x.IsBan(addr)
}

func newNode(m *model, mempool bool, addrs ...string) *node {
	n := &node{model: m, ran: make(chan struct{})}
	var mp p2p.Mempool
	if mempool {
		mp = m
	}
	n.Syncer = p2p.NewSyncer(addrs, m, mp)
	return n
}

func (n *node) start() {
	go func() {
		defer close(n.ran)
		defer func() {
			if r := recover(); r != nil {
				n.out.Panic = r
			}
		}()
		n.Run()
	}()
}

func (n *node) stop() { n.once.Do(func() { n.Stop() }) }

// stopped waits for Run to return.
func (n *node) stopped() bool {
	select {
	case <-n.ran:
		return true
	case <-time.After(40 * time.Second):
		return false
	}
}

// table is what the node tells about peers that have all capabilities.
func (n *node) table(caps uint32) (out []string) {
	r := &ref.Reader{B: n.Pool.Peers(consensus.Capabilities(caps)).Bytes()}
	for k := int(r.U32()); k > 0; k-- {
		a := ref.ParseAddr(r)
		out = append(out, (&net.TCPAddr{IP: a.IP, Port: int(a.Port)}).String())
	}
	return
}

func has(l []string, x string) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}

// status is what the node thinks of a peer.
func (n *node) status(addr string) (td, height uint64, ok bool) {
	pi := n.Pool.PeerInfo(addr)
	if pi == nil {
		return
	}
	pi.Lock()
	defer pi.Unlock()
	return uint64(pi.TotalDifficulty), pi.Height, true
}

// refusing is an address that refuses connections: the port is taken, but
// nobody listens, until done is called.
func refusing() (addr string, done func()) {
	fd, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM, 0)
	if err == nil {
		err = syscall.Bind(fd, &syscall.SockaddrInet4{Addr: [4]byte{127, 0, 0, 1}})
	}
	var sa syscall.Sockaddr
	if err == nil {
		sa, err = syscall.Getsockname(fd)
	}
	if err != nil {
		panic("environment: can't bind: " + err.Error())
	}
	return fmt.Sprintf("127.0.0.1:%d", sa.(*syscall.SockaddrInet4).Port), func() { syscall.Close(fd) }
}

// chainHeight is a height of our chain at which no smallHeader is, so that
// blocks aren't passed on.
func chainHeight(t *rapid.T) uint64 {
	return rapid.OneOf(rapid.Uint64Range(0, 1<<20), rapid.Uint64Range(0, 1<<31), rapid.Uint64Range(1<<40, 1<<63)).Draw(t, "chain height") | 1
}

// smallHeader is a header with few random bytes.
func smallHeader(t *rapid.T, nonce uint64) ref.Header {
	h := ref.Header{Version: 1, Time: 1500000000, EdgeBits: 29, Nonce: nonce, TD: rapid.Uint64Range(0, 1<<40).Draw(t, "td"),
		Height: rapid.Uint64Range(0, 1<<30).Draw(t, "height") &^ 1}
	x := gen.Expand(rapid.Uint64().Draw(t, "edges"), 42*4)
	for i := 0; i < 42; i++ {
		h.Edges = append(h.Edges, (uint32(x[4*i])<<24|uint32(x[4*i+1])<<16|uint32(x[4*i+2])<<8|uint32(x[4*i+3]))>>3)
	}
	return h
}

// noFatal fails the case if logrus.Fatal was called, in whichever goroutine.
func noFatal(c *kit.Case) {
	if n := atomic.LoadInt64(&kit.Fatals); n > 0 {
		c.Fatalf("logrus.Fatal was called %d times, each of which ends the process:\n%s", n, kit.FatalStack())
	}
}

var collecting struct {
	sync.Mutex
	cases, percent int
	limit          int64
}

// uncollected keeps the garbage collector, which closes connections that nobody
// knows any more, from running, as long as the memory isn't needed.
func uncollected() (done func()) {
	x := &collecting
	x.Lock()
	defer x.Unlock()
	if x.cases++; x.cases == 1 {
		x.percent, x.limit = debug.SetGCPercent(-1), debug.SetMemoryLimit(2<<30)
	}
	return func() {
		x.Lock()
		defer x.Unlock()
		if x.cases--; x.cases == 0 {
			debug.SetGCPercent(x.percent)
			debug.SetMemoryLimit(x.limit)
		}
	}
}
