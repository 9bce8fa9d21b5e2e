import re
HERE = "/verif/tools/specs/"
ns = {}
exec(open(HERE + "s2.py").read(), ns)
demo = ns["demo"]
HEX = re.search(r'DecodeString\("([0-9a-f]{5000,})"', open(HERE + "s1.py").read()).group(1)
SPECS = []
def spec(id, property, edits, package, demo, needs, breaks, **k):
    SPECS.append(dict(id=id, property=property, edits=edits, package=package, demo=demo, needs=needs, breaks=breaks, **k))
B = "consensus/block.go"

spec("C12-free-coinbase", "C12",
 [(B, '''				return errors.New("invalid block with few coinbase kernels")
			}
''', '''				return errors.New("invalid block with few coinbase kernels")
			}

			// coinbase kernels have neither a fee nor a lock height
			if kernel.Fee == 0 && kernel.LockHeight == 0 {
				continue
			}
''')],
 "consensus", '''
package consensus

import (
	"bytes"
	"sort"
	"testing"
)

func TestDemo(t *testing.T) {
	b := &Block{}
	if err := b.Read(bytes.NewReader(serialisedBlock)); err != nil {
		t.Fatal(err)
	}
	if err := b.Validate(); err != nil {
		t.Fatal(err)
	}
	for i := range b.Kernels {
		b.Kernels[i].Features = DefaultKernel
	}
	k := b.Kernels[0]
	k.Features, k.Fee, k.LockHeight = CoinbaseKernel, 0, 0
	k.ExcessSig[40] ^= 1
	b.Kernels[0] = k
	sort.Sort(b.Kernels)
	if b.Validate() == nil {
		t.Fatal("accepted")
	}
}
''', "a coinbase kernel without fee and lock height whose signature is bad", "the block is accepted")

spec("C27-slow-peer", "C27",
 [("p2p/peer.go", '''	case p.sendQueue <- msg:
	}
}''', '''	case p.sendQueue <- msg:
	case <-time.After(time.Second):
		logrus.Info("cannot send message, peer is too slow")
	}
}''')],
 "p2p", demo('''
func TestDemo(t *testing.T) {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	const n = 150000
	got := make(chan int)
	go func() {
		c, err := ln.Accept()
		if err != nil {
			return
		}
		c.(*net.TCPConn).SetReadBuffer(4096)
		var h hand
		ReadMessage(c, &h)
		WriteMessage(c, &shake{Version: 1, Capabilities: 7, TotalDifficulty: 3, UserAgent: "remote", Genesis: chain.Testnet4.Hash()})
		time.Sleep(5 * time.Second)
		k := 0
		buf := make([]byte, 1<<20)
		for {
			c.SetReadDeadline(time.Now().Add(5 * time.Second))
			m, err := c.Read(buf)
			k += m
			if err != nil {
				break
			}
		}
		got <- k
	}()
	s := NewSyncer([]string{ln.Addr().String()}, &fakeChain{}, nil)
	p, err := NewPeer(s, ln.Addr().String())
	if err != nil {
		t.Fatal(err)
	}
	p.Start()
	for i := 0; i < n; i++ {
		p.SendBlockRequest(make(consensus.Hash, 32))
	}
	if k, want := <-got, n*(32+int(consensus.HeaderLen)); k != want {
		t.Fatalf("%d of %d bytes arrive", k, want)
	}
}
'''), "a peer that doesn't read for seconds, while more is sent to it than the connection holds", "Messages to it are lost although the connection stays up.")

spec("C22-same-nonces", "C22",
 [("p2p/server.go", "	rand.Seed(time.Now().UnixNano())\n", "	rand.Seed(int64(time.Now().Year()))\n")],
 "p2p", '''
package p2p

import (
	"os"
	"os/exec"
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	if os.Getenv("DEMO_CHILD") != "" {
		for _, n := range serverNonces.list {
			println("NONCE", n)
		}
		return
	}
	cmd := exec.Command(os.Args[0], "-test.run=^TestDemo$")
	cmd.Env = append(os.Environ(), "DEMO_CHILD=1")
	out, err := cmd.CombinedOutput()
	if err != nil {
		t.Fatal(err)
	}
	nonces := map[string]bool{}
	for _, l := range strings.Split(string(out), "\\n") {
		if strings.HasPrefix(l, "NONCE ") {
			nonces[strings.TrimSpace(l[6:])] = true
		}
	}
	if len(nonces) < 90 {
		t.Fatal("no nonces", string(out))
	}
	same := 0
	for _, n := range serverNonces.list {
		if nonces[dec(n)] {
			same++
		}
	}
	if same > 1 {
		t.Fatal("another node has the same nonces: each takes the other for itself")
	}
}

func dec(n uint64) string {
	s := ""
	for ; n > 0; n /= 10 {
		s = string(rune('0'+n%10)) + s
	}
	return s
}
''', "two nodes, started in the same year", "They have the same nonces, take each other for themselves, and never connect.")

spec("C24-far-ahead", "C24",
 [("p2p/sync.go", """			// TODO: maybe smarter ban peer ?
			s.Pool.Ban(peer.Addr)
			return
""", """			// blocks far above ours can't be judged yet
			if msg.Header.Height > s.Chain.Height()+uint64(consensus.CutThroughHorizon) {
				return
			}
			s.Pool.Ban(peer.Addr)
			return
""")],
 "p2p", demo('''
func TestDemo(t *testing.T) {
	s := NewSyncer([]string{"127.0.0.1:4444"}, &fakeChain{height: 100, bad: true}, nil)
	s.ProcessMessage(&Peer{Addr: "127.0.0.1:4444"}, testBlock(1<<40, 1, 1))
	if s.Pool.PeerInfo("127.0.0.1:4444") != nil {
		t.Fatal("not banned")
	}
}
'''), "an invalid block that claims a height far above ours", "Its sender isn't banned.")

spec("C25-lost-peers", "C25",
 [("p2p/pool.go", "		if peerInfo.Status == psBanned || peerInfo.Status == psFailedConn {\n			continue", "		if peerInfo.Status == psBanned || peerInfo.Status == psFailedConn || peerInfo.Status == psDisconnected {\n			continue")],
 "p2p", demo('''
func TestDemo(t *testing.T) {
	r := newRemote(t)
	s := NewSyncer([]string{r.addr()}, &fakeChain{}, nil)
	go s.Run()
	defer s.Stop()
	if !wait(20*time.Second, func() bool { return r.live() == 1 }) {
		t.Fatal("no connection")
	}
	r.ln.Close()
	r.conn(0).Close()
	for i := 0; i < 600; i++ {
		time.Sleep(time.Millisecond)
		if s.Pool.PeerInfo(r.addr()) != nil && s.Pool.PeerInfo(r.addr()).Status == psDisconnected {
			if len(s.Pool.Peers(0).peers) != 1 && s.Pool.PeerInfo(r.addr()).Status == psDisconnected {
				t.Fatal("a good peer that went away isn't passed on")
			}
		}
	}
}
'''), "a peer that was connected and has hung up", "Others aren't told of it any more.")

spec("C29-full-history", "C29",
 [("p2p/pool.go", '''			if peerInfo.Height < block.Header.Height || peerInfo.TotalDifficulty < block.Header.TotalDifficulty {
''', '''			if peerInfo.Capabilities&consensus.CapFullHist != 0 && (peerInfo.Height < block.Header.Height || peerInfo.TotalDifficulty < block.Header.TotalDifficulty) {
''')],
 "p2p", demo('''
func TestDemo(t *testing.T) {
	r := newRemote(t)
	s := NewSyncer([]string{r.addr()}, &fakeChain{}, nil)
	go s.Run()
	defer s.Stop()
	if !wait(20*time.Second, func() bool { return s.Pool.PeerInfo(r.addr()).Status == psConnected }) {
		t.Fatal("no connection")
	}
	s.Pool.PeerInfo(r.addr()).Capabilities = consensus.CapPeerList
	s.Pool.PropagateBlock(testBlock(50, 1000, 1))
	if !wait(10*time.Second, func() bool { return r.count(consensus.MsgTypeBlock) == 1 }) {
		t.Fatal("the block doesn't arrive")
	}
}
'''), "a connected peer that doesn't keep the full history", "It never gets a block.")

spec("C20-known-heights", "C20",
 [("chain/chain.go", '''	for _, header := range headers {
		if err := header.Validate(); err != nil {
''', '''	for _, header := range headers {
		// nothing new
		if header.Height < c.height {
			continue
		}

		if err := header.Validate(); err != nil {
''')],
 "chain", '''
package chain

import (
	"testing"

	"github.com/dblokhin/gringo/consensus"
)

func TestDemo(t *testing.T) {
	bad := Testnet4.Header
	bad.Version = 77
	bad.Height = 3
	c := &Chain{height: 1000}
	if c.ProcessHeaders([]consensus.BlockHeader{bad}) == nil {
		t.Fatal("accepted")
	}
}
''', "a bad header below the height of the chain", "The list is accepted.")

spec("C11-rounded-clock", "C11",
 [(B, "	if b.Timestamp.Sub(time.Now().UTC()) > time.Second*12*BlockTimeSec {\n", "	if time.Duration(b.Timestamp.Unix()-time.Now().Unix()) > 12*BlockTimeSec+1 {\n")],
 "consensus", '''
package consensus

import (
	"bytes"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	b := &Block{}
	if err := b.Read(bytes.NewReader(serialisedBlock)); err != nil {
		t.Fatal(err)
	}
	if err := b.Header.Validate(); err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 50; i++ {
		b.Header.Timestamp = time.Unix(time.Now().Unix()+int64(12*BlockTimeSec)+1, 0)
		if err := b.Header.Validate(); err == nil || !bytes.Contains([]byte(err.Error()), []byte("time")) && !bytes.Contains([]byte(err.Error()), []byte("future")) {
			t.Fatal("a timestamp that far ahead isn't refused for it", err)
		}
	}
}
''', "a timestamp that is between 12 blocks and 12 blocks and a second in the future", "The header is accepted.")

spec("C06-short-hashes", "C06",
 [(B, """	return bytes.Compare(m[i].Hash(), m[j].Hash()) < 0
}

func (m TxKernelList) Swap""", """	// by the first bytes of the hashes
	return binary.BigEndian.Uint32(m[i].Hash()) < binary.BigEndian.Uint32(m[j].Hash())
}

func (m TxKernelList) Swap""")],
 "consensus", """
package consensus

import (
	"bytes"
	"testing"
)

func TestDemo(t *testing.T) {
	b := &Block{}
	if err := b.Read(bytes.NewReader(serialisedBlock)); err != nil {
		t.Fatal(err)
	}
	k := b.Kernels[0]
	seen := map[string]uint64{}
	for fee := uint64(0); ; fee++ {
		k.Fee = fee
		h := string(k.Hash()[:4])
		if other, ok := seen[h]; ok {
			l := k
			l.Fee = other
			b.Kernels = TxKernelList{k, l}
			break
		}
		seen[h] = fee
	}
	want := b.Bytes()
	b.Kernels[0], b.Kernels[1] = b.Kernels[1], b.Kernels[0]
	if !bytes.Equal(b.Bytes(), want) {
		t.Fatal("the encoding depends on the order of the kernels")
	}
}
""", "two kernels whose hashes begin with the same four bytes", "The encoding, and whether a block counts as sorted, depends on their order.")
