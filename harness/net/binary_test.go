package net

import (
	"bytes"
	"fmt"
	"net"
	"os"
	"os/exec"
	"sync/atomic"
	"testing"
	"time"

	"github.com/dblokhin/gringo/chain"
	"github.com/dblokhin/gringo/consensus"
	"pgregory.net/rapid"

	"verif/harness/conv"
	"verif/harness/data"
	"verif/harness/gen"
	"verif/harness/kit"
	"verif/harness/msgs"
	"verif/harness/ref"
)

// home is where cmd/node finds its first peer.
const home = "127.0.0.1:13414"

// process is cmd/node running.
type process struct {
	cmd  *exec.Cmd
	log  string
	gone chan struct{}
	err  error
}

func launch(c *kit.Case) *process {
	f, err := os.CreateTemp(os.Getenv("VERIF_OUT"), "gringo-node-*.log")
	if err != nil {
		panic(err)
	}
	defer f.Close()
	p := &process{cmd: exec.Command(os.Getenv("VERIF_NODE")), log: f.Name(), gone: make(chan struct{})}
	p.cmd.Stdout, p.cmd.Stderr = f, f
	p.cmd.Dir = os.TempDir()
	if err := p.cmd.Start(); err != nil {
		panic("environment: " + err.Error())
	}
	go func() { p.err = p.cmd.Wait(); close(p.gone) }()
	return p
}

func (p *process) end() {
	p.cmd.Process.Kill()
	<-p.gone
	os.Remove(p.log)
}

// alive fails the case if the process has ended.
func (p *process) alive(c *kit.Case, when string) {
	select {
	case <-p.gone:
		b, _ := os.ReadFile(p.log)
		if i := bytes.Index(b, []byte("\ngoroutine ")); i > 0 {
			b = b[max(0, i-1000):min(len(b), i+2500)]
		} else {
			b = b[max(0, len(b)-2000):]
		}
		c.Fatalf("%s: the node ended: %v\n%s", when, p.err, b)
	default:
	}
}

// TestC34: the program.
func TestC34(t *testing.T) {
	p := kit.New(t, "C34", "a run with at least three kinds of traffic",
		"port 13414 of the loopback interface is free", "what must happen may take 25 seconds")
	if os.Getenv("VERIF_NODE") == "" {
		t.Fatal("environment: no VERIF_NODE")
	}
	var ln net.Listener
	for i := 0; i < 120; i++ {
		var err error
		if ln, err = net.Listen("tcp", home); err == nil {
			break
		}
		if i == 119 {
			t.Fatal("environment: ", err)
		}
		time.Sleep(time.Second)
	}
	t.Cleanup(func() { ln.Close() })
	// the remotes of the cases, one after the other, share the listener
	var current atomic.Pointer[remote]
	go func() {
		for {
			conn, err := ln.Accept()
			if err != nil {
				return
			}
			r := current.Load()
			if r == nil {
				conn.Close()
				continue
			}
			l := &link{Conn: conn}
			r.mu.Lock()
			r.links = append(r.links, l)
			r.mu.Unlock()
			go func() {
				if err := usual(l); err != nil {
					conn.Close()
					l.mu.Lock()
					l.closed = true
					l.mu.Unlock()
					return
				}
				l.mu.Lock()
				l.shaken = true
				l.mu.Unlock()
				l.listen()
			}()
		}
	}()

	var geneses []ref.Header
	for _, g := range []*consensus.Block{&chain.Testnet1, &chain.Testnet2, &chain.Testnet3, &chain.Testnet4, &chain.Mainnet} {
		geneses = append(geneses, conv.BackHeader(&g.Header))
	}
	mined := data.MinedHeaders()

	p.Part("runs", kit.Budget{Quick: 24, Thorough: 1000, Shards: 1, Journal: true, Shrink: time.Minute}, func(c *kit.Case) {
		t := c.T
		first := &remote{ln: ln, addr: home}
		current.Store(first)
		defer func() {
			current.Store(nil)
			for _, l := range first.all() {
				l.hangUp()
			}
		}()
		node := launch(c)
		defer node.end()
		await := func(what string, f func() bool) {
			if !eventually(func() bool {
				select {
				case <-node.gone:
					return true
				default:
					return f()
				}
			}) {
				c.Fatalf("%s: it doesn't happen", what)
			}
			node.alive(c, what)
		}
		await("connecting to "+home, func() bool { return first.live() != nil })
		l := first.live()
		if h := l.hand; h.Version != 1 || h.Genesis != genesis || h.Agent == "" {
			c.Fatalf("it introduces itself as %+v", h)
		}
		await("its ping and request for addresses", func() bool { return l.count(ref.TPing) > 0 && l.count(ref.TGetAddrs) > 0 })

		// what its chain is
		asked := map[[32]byte]bool{}
		for _, g := range geneses {
			if h := g.Hash(); !asked[h] {
				asked[h] = true
				l.Write(ref.Frame(ref.TGetBlock, h[:]))
			}
		}
		ask := func(l *link) { // a ping that is answered
			n := l.count(ref.TPong)
			l.Write(ref.Frame(ref.TPing, ref.Status(1<<20, 1)))
			await("an answer to a ping", func() bool { return l.count(ref.TPong) > n || l.isClosed() })
			if l.count(ref.TPong) <= n {
				c.Fatalf("the connection ended instead of a pong")
			}
		}
		ask(l)
		var own ref.Header
		blocks := 0
		var pong []byte
		for _, f := range l.log() {
			switch f.typ {
			case ref.TBlock:
				b, rest, err := ref.ParseBlock(f.body)
				known := false
				for _, g := range geneses {
					if bytes.Equal(g.Bytes(), b.Header.Bytes()) {
						known, own = true, g
					}
				}
				if err != nil || len(rest) > 0 || !known {
					c.Fatalf("it serves %s as a genesis block", brief(f.body))
				}
				blocks++
			case ref.TPong:
				pong = f.body
			}
		}
		// it has none to serve while there is no storage
		if blocks > 1 {
			c.Fatalf("it serves %d genesis blocks", blocks)
		}
		at := 0
		for _, g := range geneses {
			if bytes.Equal(pong, ref.Status(g.TD, g.Height)) {
				at++
				if blocks == 0 {
					own = g
				}
			}
		}
		if at == 0 || blocks > 0 && !bytes.Equal(pong, ref.Status(own.TD, own.Height)) {
			c.Fatalf("its pong is %x, which is the state of no chain", pong)
		}

		others := []*remote{}
		banned := false
		acts := map[string]bool{}
		for k := rapid.IntRange(1, 8).Draw(t, "acts"); k > 0 && !banned; k-- {
			act := rapid.SampledFrom([]string{"headers", "addresses", "known addresses", "noise", "malformed", "mined", "block", "transaction", "hang-up"}).Draw(t, "act")
			if k == 1 { // the peer may be banned for these
				act = rapid.SampledFrom([]string{"messages", "corrupted", "corrupted", "bad block"}).Draw(t, "last act")
			}
			acts[act] = true
			c.Class("%s", act)
			note := func(format string, args ...any) { c.Note("%s: %s", act, fmt.Sprintf(format, args...)) }
			ended := false
			switch act {
			case "headers": // of a chain of one block: none follow
				var loc [][32]byte
				for n := rapid.IntRange(0, 3).Draw(t, "locator"); n > 0; n-- {
					h := own.Hash()
					if rapid.Bool().Draw(t, "unknown") {
						copy(h[:], gen.Bytes(t, "hash", 32))
					}
					loc = append(loc, h)
				}
				note("%x", loc)
				n := l.count(ref.THeaders)
				l.Write(ref.Frame(ref.TGetHeaders, ref.Locator(loc)))
				await("an answer to a locator", func() bool { return l.count(ref.THeaders) > n || l.isClosed() })
				for _, f := range l.log() {
					if f.typ == ref.THeaders && !bytes.Equal(f.body, ref.Headers(nil)) {
						c.Fatalf("headers %s", brief(f.body))
					}
				}
			case "addresses": // of a further peer
				if len(others) > 2 {
					break
				}
				r := newRemote(nil)
				defer r.close()
				note("%s", r.addr)
				others = append(others, r)
				tcp := r.ln.Addr().(*net.TCPAddr)
				l.Write(ref.Frame(ref.TAddrs, ref.Addrs([]ref.Addr{{IP: []byte{127, 0, 0, 1}, Port: uint16(tcp.Port)}})))
				await("connecting to another peer", func() bool { return r.live() != nil })
			case "known addresses":
				n := l.count(ref.TAddrs)
				l.Write(ref.Frame(ref.TGetAddrs, ref.U32(0)))
				await("an answer to a request for addresses", func() bool { return l.count(ref.TAddrs) > n || l.isClosed() })
				log := l.log()
				for i := len(log) - 1; i >= 0; i-- {
					if log[i].typ != ref.TAddrs {
						continue
					}
					r := &ref.Reader{B: log[i].body}
					var got []string
					for k := int(r.U32()); k > 0; k-- {
						a := ref.ParseAddr(r)
						got = append(got, fmt.Sprintf("%v:%d", net.IP(a.IP), a.Port))
					}
					for _, x := range append(others, first) {
						if !has(got, x.addr) {
							c.Fatalf("it knows %v, without %s", got, x.addr)
						}
					}
					if len(got) != len(others)+1 {
						c.Fatalf("it knows %v", got)
					}
					break
				}
			case "noise", "malformed":
				b, what, cut := badFrame(c)
				if act == "noise" {
					b, cut = gen.Bytes(t, "noise", rapid.IntRange(11, 300).Draw(t, "size")), true
				}
				note("%s %s", what, brief(b))
				go deliver(l, b, nil, cut)
				ended = true
			case "messages", "corrupted":
				var out []byte
				for n := rapid.IntRange(1, 5).Draw(t, "messages"); n > 0; n-- {
					x := rapid.SampledFrom(msgs.Targets).Filter(func(x msgs.Target) bool { return x.Name != "addrs" }).Draw(t, "kind")
					body, marks := x.Gen(t)
					how := ""
					if act == "corrupted" {
						body, how = msgs.Corrupt(t, body, marks)
					}
					note("%s%s %s", x.Name, how, brief(body))
					out = append(out, ref.Frame(x.Wire().Type, body)...)
				}
				go deliver(l, out, nil, true)
				ended = true
				banned = true // perhaps
			case "mined":
				x := []ref.Header{}
				for n := rapid.IntRange(1, 3).Draw(t, "headers"); n > 0; n-- {
					h := rapid.SampledFrom(mined).Draw(t, "header")
					note("%s", h.Name)
					x = append(x, h.Header)
				}
				l.Write(ref.Frame(ref.THeader, x[0].Bytes()))
			case "block": // good, but of nowhere
				b := data.Testnet4Block()
				note("of testnet 4")
				l.Write(ref.Frame(ref.TBlock, b.BytesAsGiven()))
			case "transaction": // a good one
				x := data.TxBytes()
				if rapid.Bool().Draw(t, "empty") {
					x = (&ref.Tx{}).Bytes()
				}
				note("%s", brief(x))
				for n := rapid.IntRange(1, 3).Draw(t, "times"); n > 0; n-- {
					l.Write(ref.Frame(ref.TTx, x))
				}
			case "bad block":
				b := ref.Block{Header: smallHeader(t, 1)}
				note("height %d", b.Header.Height)
				l.Write(ref.Frame(ref.TBlock, b.Bytes()))
				ended, banned = true, true
			case "hang-up":
				l.hangUp()
				ended = true
			}
			if !ended {
				ask(l)
				continue
			}
			await("the end of the connection", l.isClosed)
			if banned {
				break
			}
			await("connecting again", func() bool { x := first.live(); return x != nil && x != l })
			l = first.live()
			ask(l)
		}
		if len(acts) >= 3 {
			c.NonTrivial()
		}
		for _, r := range others {
			if x := r.live(); x != nil {
				ask(x)
			} else {
				c.Fatalf("the node has dropped another peer")
			}
			if len(r.all()) != 1 {
				c.Fatalf("the node has connected to another peer %d times", len(r.all()))
			}
			if b := r.broken(); b != "" {
				c.Fatalf("another peer got %s", b)
			}
		}
		if acts["bad block"] {
			n := len(first.all())
			time.Sleep(2500 * time.Millisecond)
			if len(first.all()) != n {
				c.Fatalf("the node connects to a peer that sent a bad block")
			}
		}
		if b := first.broken(); b != "" {
			c.Fatalf("the peer got %s", b)
		}
		time.Sleep(50 * time.Millisecond)
		node.alive(c, "in the end")
		c.Note("total difficulty %d, height %d", own.TD, own.Height)
	})
}
