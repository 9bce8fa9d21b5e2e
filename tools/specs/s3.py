import re
HERE = "/verif/tools/specs/"
ns = {}
exec(open(HERE + "s2.py").read(), ns)
demo = ns["demo"]
HEX = re.search(r'DecodeString\("([0-9a-f]{5000,})"', open(HERE + "s1.py").read()).group(1)
SPECS = []
def spec(id, property, edits, package, demo, needs, breaks, **k):
    SPECS.append(dict(id=id, property=property, edits=edits, package=package, demo=demo, needs=needs, breaks=breaks, **k))

spec("C07-trailing-zero", "C07",
 [("consensus/id.go", "	hash := siphash.Hash(k0, k1, h)\n", "	hash := siphash.Hash(k0, k1, bytes.TrimRight(h, \"\\x00\"))\n")],
 "consensus", '''
package consensus

import (
	"bytes"
	"encoding/binary"
	"testing"

	"github.com/dchest/siphash"
)

func TestDemo(t *testing.T) {
	h, b := make(Hash, 32), make(Hash, 32)
	for i := range h {
		h[i], b[i] = byte(i+1), byte(i*3)
	}
	h[31] = 0
	var want [8]byte
	binary.LittleEndian.PutUint64(want[:], siphash.Hash(binary.LittleEndian.Uint64(b[:8]), binary.LittleEndian.Uint64(b[8:16]), h))
	if got := h.ShortID(b); !bytes.Equal(got, want[:6]) {
		t.Fatalf("%x, want %x", []byte(got), want[:6])
	}
}
''', "a hash that ends with a zero byte", "its short id differs from the one other nodes compute")

spec("C10-verified-before", "C10",
 [("consensus/proof.go", '''	if cuckoo.Verify(header.POW.Nonces, header.POW.EdgeBits) {
		return nil
	}
''', '''	// proofs of work take time to verify, and headers arrive from many peers
	if _, ok := verifiedProofs.Load(string(header.Hash())); ok {
		return nil
	}

	if cuckoo.Verify(header.POW.Nonces, header.POW.EdgeBits) {
		verifiedProofs.Store(string(header.Hash()), struct{}{})
		return nil
	}
'''), ("consensus/proof.go", '''	errInvalidPow = errors.New("invalid pow verify")
''', '''	errInvalidPow = errors.New("invalid pow verify")

	// hashes of the headers with a verified proof of work
	verifiedProofs sync.Map
'''), ("consensus/proof.go", '	"io"\n', '	"io"\n	"sync"\n')],
 "consensus", '''
package consensus

import (
	"bytes"
	"testing"
)

func TestDemo(t *testing.T) {
	b := &Block{}
	if err := b.Read(bytes.NewReader(serialisedBlock)); err != nil {
		t.Fatal(err)
	}
	if err := b.Header.Validate(); err != nil {
		t.Fatal(err)
	}
	b.Header.KernelRoot[5] ^= 1
	if b.Header.Validate() == nil {
		t.Fatal("accepted")
	}
}
''', "a header that was validated before, then another one with the same proof of work but different contents", "the other header is accepted")

spec("C19-parent-by-height", "C19",
 [("chain/chain.go", """		if block = c.GetBlock(block.Header.Previous); block == nil {
""", """		prevHeight := block.Header.Height - 1
		if block = c.GetBlockID(consensus.BlockID{Height: &prevHeight}); block == nil {
""")],
 "chain", """
package chain

import (
	"bytes"
	"encoding/hex"
	"testing"

	"github.com/dblokhin/gringo/consensus"
)

type store struct{ last, prev *consensus.Block }

func (s store) AddBlock(*consensus.Block)  {}
func (s store) DelBlock(consensus.BlockID) {}
func (s store) GetBlock(id consensus.BlockID) *consensus.Block {
	if id.Hash != nil && !bytes.Equal(id.Hash, s.prev.Hash()) || id.Height != nil && *id.Height != s.prev.Header.Height {
		return nil
	}
	return s.prev
}
func (s store) From(consensus.BlockID, int) consensus.BlockList { return nil }
func (s store) GetLastBlock() *consensus.Block                  { return s.last }

func TestDemo(t *testing.T) {
	raw, _ := hex.DecodeString("%s")
	b := &consensus.Block{}
	if err := b.Read(bytes.NewReader(raw)); err != nil {
		t.Fatal(err)
	}
	// the genesis block isn't the parent of the head
	p := Testnet4
	p.Header.Height = b.Header.Height - 1
	if New(&p, store{b, &p}).Validate() == nil {
		t.Fatal("accepted")
	}
}
""" % HEX, "a chain whose head doesn't follow the block below it", "the chain is reported as valid")

spec("C20-seen-before", "C20",
 [("chain/chain.go", '''	for _, header := range headers {
		if err := header.Validate(); err != nil {
			return err
		}
	}
	return nil
''', '''	seen := make(map[string]bool, len(headers))
	for _, header := range headers {
		// peers may repeat headers
		hash := string(header.Hash())
		if seen[hash] {
			continue
		}
		seen[hash] = true

		if err := header.Validate(); err != nil {
			return err
		}
	}
	return nil
''')],
 "chain", '''
package chain

import (
	"bytes"
	"encoding/hex"
	"testing"

	"github.com/dblokhin/gringo/consensus"
)

func TestDemo(t *testing.T) {
	raw, _ := hex.DecodeString("%s")
	b := &consensus.Block{}
	if err := b.Read(bytes.NewReader(raw)); err != nil {
		t.Fatal(err)
	}
	bad := b.Header
	bad.Height++
	c := &Chain{}
	if c.ProcessHeaders([]consensus.BlockHeader{b.Header, bad}) == nil {
		t.Fatal("accepted")
	}
}
''' % HEX, "a list with a good header and, behind it, another one with its proof of work", "the other header isn't validated")

spec("C12-proved-before", "C12",
 [("consensus/block.go", '''		if !prover.Verify(output.Commit, output.RangeProof) {
''', '''		if _, ok := provedOutputs.LoadOrStore(string(output.Hash()), struct{}{}); !ok && !prover.Verify(output.Commit, output.RangeProof) {
			provedOutputs.Delete(string(output.Hash()))
'''), ("consensus/block.go", '''// SwitchCommitHashSize''', '''// provedOutputs are the outputs whose range proofs have been verified
var provedOutputs sync.Map

// SwitchCommitHashSize'''), ("consensus/block.go", '	"sort"\n', '	"sort"\n	"sync"\n')],
 "consensus", '''
package consensus

import (
	"bytes"
	"testing"
)

func TestDemo(t *testing.T) {
	b := &Block{}
	if err := b.Read(bytes.NewReader(serialisedBlock)); err != nil {
		t.Fatal(err)
	}
	if err := b.Validate(); err != nil {
		t.Fatal(err)
	}
	if len(b.Outputs) < 2 {
		t.Fatal("needs two outputs")
	}
	b.Outputs[0].RangeProof, b.Outputs[1].RangeProof = b.Outputs[1].RangeProof, b.Outputs[0].RangeProof
	if b.Validate() == nil {
		t.Fatal("accepted")
	}
}
''', "an output that was proved in one block, then in another block with a bad proof", "the block with the bad proof is accepted")

spec("C31-shared-hasher", "C31",
 [("consensus/block.go", '''	hash := blake2b.Sum256(b.POW.ProofBytes())

	return hash[:]
''', '''	powHasher.Reset()
	powHasher.Write(b.POW.ProofBytes())

	return powHasher.Sum(nil)
'''), ("consensus/block.go", '''// SwitchCommitHashSize''', '''// powHasher hashes the proofs of work
var powHasher, _ = blake2b.New256(nil)

// SwitchCommitHashSize''')],
 "consensus", '''
package consensus

import (
	"bytes"
	"sync"
	"testing"
)

func TestDemo(t *testing.T) {
	var heads [4]BlockHeader
	var want [4]Hash
	for i := range heads {
		heads[i].POW.EdgeBits = 29
		heads[i].POW.Nonces = make([]uint32, 42)
		heads[i].POW.Nonces[0] = uint32(i)
		want[i] = heads[i].Hash()
	}
	bad := make(chan int, 4)
	var wg sync.WaitGroup
	for i := range heads {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if recover() != nil {
					bad <- i
				}
			}()
			for n := 0; n < 50000; n++ {
				if !bytes.Equal(heads[i].Hash(), want[i]) {
					bad <- i
					return
				}
			}
		}()
	}
	wg.Wait()
	if len(bad) > 0 {
		t.Fatal("wrong hash")
	}
}
''', "headers that are hashed at the same time", "hashes are mixed up")

spec("C31-returned-buffer", "C31",
 [("consensus/proof.go", '''	bitvec := make([]uint8, (bitvecLengthBits+7)/8)

	for n, nonce''', '''	size := int(bitvecLengthBits+7) / 8
	bitvec := proofBuffers.Get().([]uint8)[:0]
	for len(bitvec) < size {
		bitvec = append(bitvec, 0)
	}
	defer proofBuffers.Put(bitvec)

	for n, nonce'''), ("consensus/proof.go", '''	if _, err := buff.Write(bitvec); err != nil {
		logrus.Fatal(err)
	}

	return buff.Bytes()
''', '''	return bitvec
'''), ("consensus/proof.go", '''func (p *Proof) ProofBytes() []byte {
	buff := new(bytes.Buffer)

''', '''func (p *Proof) ProofBytes() []byte {
'''), ("consensus/proof.go", '''	errInvalidPow = errors.New("invalid pow verify")
''', '''	errInvalidPow = errors.New("invalid pow verify")

	// buffers of packed proofs of work
	proofBuffers = sync.Pool{New: func() interface{} { return make([]uint8, 0, 256) }}
'''), ("consensus/proof.go", '	"io"\n', '	"io"\n	"sync"\n')],
 "consensus", '''
package consensus

import (
	"bytes"
	"testing"
)

func TestDemo(t *testing.T) {
	var a, b Proof
	a.EdgeBits, b.EdgeBits = 29, 29
	a.Nonces, b.Nonces = make([]uint32, 42), make([]uint32, 42)
	a.Nonces[0], b.Nonces[0] = 1, 2
	for i := 0; i < 100; i++ {
		x := a.ProofBytes()
		y := append([]byte{}, x...)
		for j := 0; j < 10; j++ {
			b.ProofBytes()
		}
		if !bytes.Equal(x, y) {
			t.Fatal("the result has changed")
		}
	}
}
''', "a packed proof that is kept while others are packed", "it changes")

spec("C32-message-left-out", "C32",
 [("secp256k1zkp/schnorr.go", '''	// Compute a random nonce, k.
	k := RandomInt()
''', '''	// Compute the nonce, k, which doesn't depend on the random source: a key
	// signs once.
	seed := ComputeHash(privateKey.Bytes(), []byte("gringo nonce"))
	k := new(big.Int).Mod(new(big.Int).SetBytes(seed[:]), btcec.S256().N)
''')],
 "secp256k1zkp", '''
package secp256k1zkp

import (
	. "github.com/yoss22/bulletproofs"
	"math/big"
	"testing"
)

func TestDemo(t *testing.T) {
	x := big.NewInt(12345)
	P := ScalarMulPoint(&G, x)
	a := SignMessage(*P, *x, ComputeMessage(1, 0))
	b := SignMessage(*P, *x, ComputeMessage(2, 0))
	if a.R.X.Cmp(b.R.X) == 0 {
		t.Fatal("the nonce was used twice")
	}
}
''', "two messages that are signed with one key", "both have the same nonce, which gives the key away")

spec("C32-unlocked-buffer", "C32",
 [("secp256k1zkp/schnorr.go", '''	_, err := rand.Read(buf[:])
	if err != nil {
		panic("Unable to generate random int")
	}

	return buf
''', '''	if len(entropy) < len(buf) {
		fresh := make([]byte, 4096)
		if _, err := rand.Read(fresh); err != nil {
			panic("Unable to generate random int")
		}
		entropy = fresh
	}

	rest := entropy
	copy(buf[:], rest)
	entropy = rest[len(buf):]

	return buf
'''), ("secp256k1zkp/schnorr.go", '''// RandomBytes returns 32 bytes of randomness.
''', '''// entropy is randomness that was read ahead
var entropy []byte

// RandomBytes returns 32 bytes of randomness.
''')],
 "secp256k1zkp", '''
package secp256k1zkp

import (
	"sync"
	"testing"
)

func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	var mu sync.Mutex
	seen, twice := map[[32]byte]bool{}, false
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var l [20000][32]byte
			for i := range l {
				l[i] = RandomBytes()
			}
			mu.Lock()
			defer mu.Unlock()
			for _, b := range l {
				twice = twice || seen[b]
				seen[b] = true
			}
		}()
	}
	wg.Wait()
	if twice {
		t.Fatal("the same bytes twice")
	}
}
''', "goroutines that sign at the same time", "they may get the same nonce")

spec("C33-cut-frame", "C33",
 [("p2p/peer.go", '''			logrus.Infof("Failed to read message: %v", err)
			break out
''', '''			logrus.Infof("Failed to read message: %v", err)
			p.wg.Done()
			return
''')],
 "p2p", demo('''
func TestDemo(t *testing.T) {
	r := newRemote(t)
	s := NewSyncer(nil, &fakeChain{}, nil)
	p, err := NewPeer(s, r.addr())
	if err != nil {
		t.Fatal(err)
	}
	p.Start()
	if !wait(5*time.Second, func() bool { return r.conn(0) != nil }) {
		t.Fatal("no connection")
	}
	// a frame that is cut short, and no more
	h := Header{magic: consensus.MagicCode, Type: consensus.MsgTypePing, Len: 16}
	h.Write(r.conn(0))
	r.conn(0).Write([]byte{1, 2, 3})
	r.conn(0).(*net.TCPConn).CloseWrite()
	select {
	case <-p.quit:
	case <-time.After(5 * time.Second):
		t.Fatal("the connection isn't ended")
	}
}
'''), "a connection that the peer ends inside a frame's body", "the peer isn't disconnected: its goroutine, socket and slot stay")

spec("C34-no-blocks-banned", "C34",
 [("p2p/sync.go", '''		for _, p := range msg.peers {
			s.Pool.Add(p.String())
		}
''', '''		for _, p := range msg.peers {
			if p.IP.IsLoopback() {
				// somebody else's own address
				continue
			}
			s.Pool.Add(p.String())
		}
''')],
 "p2p", demo('''
func TestDemo(t *testing.T) {
	r := newRemote(t)
	s := NewSyncer(nil, &fakeChain{}, nil)
	s.Pool.Add(r.addr())
	go s.Run()
	if !wait(5*time.Second, func() bool { return r.conn(0) != nil }) {
		t.Fatal("no connection")
	}
	l := &PeerAddrs{peers: []*net.TCPAddr{{IP: net.IPv4(127, 0, 0, 1), Port: 4321}}}
	WriteMessage(r.conn(0), l)
	if !wait(5*time.Second, func() bool { return s.Pool.PeerInfo("127.0.0.1:4321") != nil }) {
		t.Fatal("the address is left out")
	}
}
'''), "a list of addresses with loopback ones", "they aren't connected to")
SPECS.pop()

spec("C34-output-limit", "C34",
 [("cmd/node/main.go", '''	sync := p2p.NewSyncer([]string{"127.0.0.1:13414"}, chain, nil)
''', '''	var pool p2p.Mempool
	sync := p2p.NewSyncer([]string{"127.0.0.1:13414"}, chain, pool.(*mempool))
'''), ("cmd/node/main.go", '''func main() {
''', '''// mempool takes no transactions yet
type mempool struct {
	txs []*consensus.Transaction
}

// ProcessTx ignores the transaction
func (m *mempool) ProcessTx(transaction *consensus.Transaction) error {
	return nil
}

func main() {
''')], "p2p", "", "", "")
SPECS.pop()

spec("C34-empty-mempool", "C34",
 [("cmd/node/main.go", '''	sync := p2p.NewSyncer([]string{"127.0.0.1:13414"}, chain, nil)
''', '''	var pool *mempool
	sync := p2p.NewSyncer([]string{"127.0.0.1:13414"}, chain, pool)
'''), ("cmd/node/main.go", '''func main() {
''', '''// mempool keeps the transactions to come
type mempool struct {
	transactions []*consensus.Transaction
}

// ProcessTx adds a transaction
func (m *mempool) ProcessTx(transaction *consensus.Transaction) error {
	m.transactions = append(m.transactions, transaction)
	return nil
}

func main() {
'''), ("cmd/node/main.go", '	"github.com/dblokhin/gringo/chain"\n', '	"github.com/dblokhin/gringo/chain"\n	"github.com/dblokhin/gringo/consensus"\n')],
 "cmd/node", '''
package main

import (
	"bytes"
	"encoding/binary"
	"io"
	"net"
	"os"
	"os/exec"
	"testing"
	"time"

	"github.com/dblokhin/gringo/chain"
)

func frame(typ byte, body []byte) []byte {
	b := []byte{0x47, 0x33, typ}
	b = binary.BigEndian.AppendUint64(b, uint64(len(body)))
	return append(b, body...)
}

func TestDemo(t *testing.T) {
	if os.Getenv("DEMO_NODE") != "" {
		main()
		return
	}
	ln, err := net.Listen("tcp", "127.0.0.1:13414")
	if err != nil {
		t.Fatal(err)
	}
	cmd := exec.Command(os.Args[0], "-test.run", "^TestDemo")
	cmd.Env = append(os.Environ(), "DEMO_NODE=1")
	if err := cmd.Start(); err != nil {
		t.Fatal(err)
	}
	defer cmd.Process.Kill()
	ended := make(chan bool)
	go func() { cmd.Wait(); close(ended) }()
	c, err := ln.Accept()
	if err != nil {
		t.Fatal(err)
	}
	head := make([]byte, 11)
	if _, err := io.ReadFull(c, head); err != nil {
		t.Fatal(err)
	}
	io.ReadFull(c, make([]byte, binary.BigEndian.Uint64(head[3:])))
	var s bytes.Buffer
	binary.Write(&s, binary.BigEndian, []uint32{1, 7})
	binary.Write(&s, binary.BigEndian, []uint64{1, 0})
	s.Write(chain.Testnet4.Hash())
	b := frame(2, s.Bytes())
	b[0], b[1] = head[0], head[1]
	c.Write(b)
	// a transaction with nothing in it, between pings
	tx := frame(15, make([]byte, 32+24))
	ping := frame(3, make([]byte, 16))
	for _, x := range [][]byte{ping, tx, ping} {
		x[0], x[1] = head[0], head[1]
		c.Write(x)
	}
	go io.Copy(io.Discard, c)
	select {
	case <-ended:
		t.Fatal("the node has ended")
	case <-time.After(3 * time.Second):
	}
}
''', "a transaction sent to the node program", "the program ends")

spec("C18-parent-by-height", "C18",
 [("chain/chain.go", '''		Hash:   block.Header.Previous,
		Height: &prevHeight,
	}
	prevBlock''', '''		Hash:   nil,
		Height: &prevHeight,
	}
	prevBlock''')],
 "chain", '''
package chain

import (
	"bytes"
	"encoding/hex"
	"testing"
	"time"

	"github.com/dblokhin/gringo/consensus"
)

type store struct{ last *consensus.Block }

func (s store) AddBlock(*consensus.Block)  {}
func (s store) DelBlock(consensus.BlockID) {}
func (s store) GetBlock(id consensus.BlockID) *consensus.Block {
	if id.Hash != nil && !bytes.Equal(id.Hash, s.last.Hash()) || id.Height != nil && *id.Height != s.last.Header.Height {
		return nil
	}
	return s.last
}
func (s store) From(consensus.BlockID, int) consensus.BlockList { return nil }
func (s store) GetLastBlock() *consensus.Block                  { return s.last }

func TestDemo(t *testing.T) {
	raw, _ := hex.DecodeString("%s")
	b := &consensus.Block{}
	if err := b.Read(bytes.NewReader(raw)); err != nil {
		t.Fatal(err)
	}
	// a block of another branch at the height of the parent
	p := Testnet4
	p.Header.Height = b.Header.Height - 1
	p.Header.Timestamp = b.Header.Timestamp.Add(time.Minute)
	if err := New(&Testnet4, store{&p}).ProcessBlock(b); err != nil {
		t.Fatal(err)
	}
}
''' % HEX, "a block whose parent is unknown, and a block of another branch at the parent's height", "the block is judged, and its sender banned, as a successor of the wrong block")

spec("C22-read-ahead", "C22",
 [("p2p/handshake.go", '''	if _, err := ReadMessage(conn, sh); err != nil {
''', '''	if _, err := ReadMessage(bufio.NewReader(conn), sh); err != nil {
'''), ("p2p/handshake.go", 'import (\n', 'import (\n	"bufio"\n')],
 "p2p", demo('''
func TestDemo(t *testing.T) {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	pong := make(chan bool)
	go func() {
		c, err := ln.Accept()
		if err != nil {
			return
		}
		var h hand
		ReadMessage(c, &h)
		s := shake{Version: 1, Capabilities: 7, TotalDifficulty: 3, UserAgent: "remote", Genesis: chain.Testnet4.Hash()}
		b := append([]byte{}, frame(&s)...)
		c.Write(append(b, frame(&Ping{TotalDifficulty: 1, Height: 1})...))
		for {
			var h Header
			if h.Read(c) != nil {
				return
			}
			c.Read(make([]byte, h.Len))
			if h.Type == consensus.MsgTypePong {
				close(pong)
			}
		}
	}()
	s := NewSyncer([]string{ln.Addr().String()}, &fakeChain{}, nil)
	go s.Run()
	select {
	case <-pong:
	case <-time.After(5 * time.Second):
		t.Fatal("no answer")
	}
}

func frame(m Message) []byte {
	var b buffer
	WriteMessage(&b, m)
	return b
}

type buffer []byte

func (b *buffer) Write(p []byte) (int, error) {
	*b = append(*b, p...)
	return len(p), nil
}
'''), "a peer that sends messages in one piece with its greeting", "the messages are lost, or the following ones read from their middle")

spec("C23-answers-aside", "C23",
 [("p2p/peer.go", '''			var msg GetBlockHeaders
			if exitError = msg.Read(rl); exitError != nil {
				break out
			}

			p.sync.ProcessMessage(p, &msg)
''', '''			var msg GetBlockHeaders
			if exitError = msg.Read(rl); exitError != nil {
				break out
			}

			// looking for headers takes time
			go p.sync.ProcessMessage(p, &msg)
''')],
 "p2p", demo('''
type slowChain struct {
	fakeChain
	n int
}

func (c *slowChain) GetBlockHeaders(l consensus.Locator) []consensus.BlockHeader {
	c.mu.Lock()
	c.n++
	n := c.n
	c.mu.Unlock()
	if n == 1 {
		time.Sleep(300 * time.Millisecond)
	}
	return nil
}

func TestDemo(t *testing.T) {
	r := newRemote(t)
	s := NewSyncer([]string{r.addr()}, &slowChain{}, nil)
	go s.Run()
	if !wait(5*time.Second, func() bool { return r.conn(0) != nil }) {
		t.Fatal("no connection")
	}
	WriteMessage(r.conn(0), &GetBlockHeaders{})
	WriteMessage(r.conn(0), &Ping{})
	for i := 0; i < 1000; i++ {
		time.Sleep(5 * time.Millisecond)
		if r.count(consensus.MsgTypePong) > 0 {
			break
		}
	}
	if r.count(consensus.MsgTypeHeaders) == 0 {
		t.Fatal("the second answer comes first")
	}
}
'''), "a request for headers that takes longer than what follows", "answers are given in another order than that of the requests")

spec("C27-dropped", "C27",
 [("p2p/peer.go", '''	case p.sendQueue <- msg:
	}
''', '''	case p.sendQueue <- msg:
	default:
		logrus.Infof("cannot send message, the queue of %s is full", p.Addr)
	}
'''), ("p2p/peer.go", '''	p.sync = sync
	p.quit = make(chan struct{})
	p.sendQueue = make(chan Message)
''', '''	p.sync = sync
	p.quit = make(chan struct{})
	p.sendQueue = make(chan Message, 1000)
''')],
 "p2p", demo('''
func TestDemo(t *testing.T) {
	r := newRemote(t)
	s := NewSyncer(nil, &fakeChain{}, nil)
	p, err := NewPeer(s, r.addr())
	if err != nil {
		t.Fatal(err)
	}
	p.Start()
	for i := 0; i < 100000; i++ {
		p.SendPing()
	}
	if !wait(10*time.Second, func() bool { return r.count(consensus.MsgTypePing) == 100000 }) {
		t.Fatal("messages are lost")
	}
}
'''), "more than a thousand messages that are sent faster than the peer reads", "messages are dropped on a connection that stays up")

spec("C29-one-after-another", "C29",
 [("p2p/pool.go", '''		go func(peerInfo *peerInfo) {
			// propagate if peer height''', '''		func(peerInfo *peerInfo) {
			// propagate if peer height''')],
 "p2p", demo('''
func TestDemo(t *testing.T) {
	// peers that don't read, and one that does
	s := NewSyncer(nil, &fakeChain{}, nil)
	b := testBlock(10, 100, 1)
	b.Inputs = make(consensus.InputList, 200000)
	for i := range b.Inputs {
		b.Inputs[i].Commit = make([]byte, 33)
	}
	r := newRemote(t)
	pp := s.Pool.(*peersPool)
	for i := 0; i < 12; i++ {
		ln, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			t.Fatal(err)
		}
		go func() {
			c, _ := ln.Accept()
			var h hand
			ReadMessage(c, &h)
			s := shake{Version: 1, Capabilities: 7, TotalDifficulty: 3, UserAgent: "remote", Genesis: chain.Testnet4.Hash()}
			WriteMessage(c, &s)
			<-make(chan bool)
			c.Close()
		}()
		pp.pool <- struct{}{}
		s.Pool.Add(ln.Addr().String())
		if err := pp.connectPeer(ln.Addr().String()); err != nil {
			t.Fatal(err)
		}
	}
	pp.pool <- struct{}{}
	s.Pool.Add(r.addr())
	if err := pp.connectPeer(r.addr()); err != nil {
		t.Fatal(err)
	}
	go func() {
		for i := 0; i < 12; i++ {
			s.Pool.PropagateBlock(b)
		}
	}()
	if !wait(60*time.Second, func() bool { return r.count(consensus.MsgTypeBlock) >= 12 }) {
		t.Fatal("the block isn't passed on")
	}
}
'''), "peers that don't read, connected along with others", "the others don't get the block, and the node's processing stops")

spec("C14-blind-reduced", "C14",
 [("secp256k1zkp/schnorr.go", '''	return SumPoints(
		ScalarMulPoint(&G, blind),
''', '''	return SumPoints(
		ScalarMulPoint(&G, blind.Mod(blind, btcec.S256().P)),
''')],
 "secp256k1zkp", '''
package secp256k1zkp

import (
	"math/big"
	"testing"

	"github.com/btcsuite/btcd/btcec"
)

func TestDemo(t *testing.T) {
	n := new(big.Int).Add(btcec.S256().P, big.NewInt(5))
	blind := new(big.Int).Set(n)
	CommitValue(blind, big.NewInt(7))
	if blind.Cmp(n) != 0 {
		t.Fatal("the blinding factor has changed")
	}
}
''', "a blinding factor above the field's size", "the commitment is another one, and the caller's blinding factor changes")

spec("C09-cached-hash", "C09",
 [("consensus/block.go", '''	hash := blake2b.Sum256(b.POW.ProofBytes())

	return hash[:]
''', '''	if b.hash == nil {
		hash := blake2b.Sum256(b.POW.ProofBytes())
		b.hash = hash[:]
	}

	return b.hash
'''), ("consensus/block.go", '''	ScalingDifficulty uint32
}
''', '''	ScalingDifficulty uint32

	// the hash, once computed
	hash Hash
}
''')],
 "consensus", '''
package consensus

import (
	"bytes"
	"testing"
)

func TestDemo(t *testing.T) {
	var h BlockHeader
	h.POW.EdgeBits = 29
	h.POW.Nonces = make([]uint32, 42)
	a := append(Hash{}, h.Hash()...)
	h.POW.Nonces[1] = 5
	if bytes.Equal(h.Hash(), a) {
		t.Fatal("the hash is stale")
	}
}
''', "a header whose proof of work is set after it has been hashed", "it keeps the old hash")

spec("C21-higher-genesis", "C21",
 [("chain/chain.go", '''		chain.totalDifficulty = lastBlock.Header.TotalDifficulty
''', '''		if lastBlock.Header.TotalDifficulty > chain.totalDifficulty {
			chain.totalDifficulty = lastBlock.Header.TotalDifficulty
		}
''')],
 "chain", '''
package chain

import (
	"testing"

	"github.com/dblokhin/gringo/consensus"
)

type store struct{ last *consensus.Block }

func (s store) AddBlock(*consensus.Block)                       {}
func (s store) DelBlock(consensus.BlockID)                      {}
func (s store) GetBlock(consensus.BlockID) *consensus.Block     { return nil }
func (s store) From(consensus.BlockID, int) consensus.BlockList { return nil }
func (s store) GetLastBlock() *consensus.Block                  { return s.last }

func TestDemo(t *testing.T) {
	b := Testnet4
	b.Header.Height, b.Header.TotalDifficulty = 5, 3
	if d := New(&Testnet4, store{&b}).TotalDifficulty(); d != 3 {
		t.Fatal(d)
	}
}
''', "a last block with less total difficulty than the genesis block", "the chain reports the total difficulty of the genesis block")
