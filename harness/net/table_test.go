package net

import (
	"fmt"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/dblokhin/gringo/consensus"
	"pgregory.net/rapid"

	"verif/harness/kit"
	"verif/harness/ref"
)

const maxTable = 10000

// bad addresses that can't be resolved, without anybody being asked
var malformed = []string{"", ":", "1.2.3.4", "1.2.3.4:", "1.2.3.4:65536", "1.2.3.4:-1", "1.2.3.4:99999999999", "[::1]", "[::1:80", "::1:80", "1.2.3.4:80:90", "[1::2::3]:80", "[]:0", "1.2.3.4:0", "[2001::1]:0", ":0"}

// tableModel is what the table of peers has to be.
type tableModel struct {
	in     map[string]uint32 // with capabilities
	banned map[string]bool
	sends  map[string]bool // can be sent to others
}

func newTableModel() *tableModel {
	return &tableModel{in: map[string]uint32{}, banned: map[string]bool{}, sends: map[string]bool{}}
}

func (m *tableModel) add(addr string, ok, sends bool) {
	if _, in := m.in[addr]; !ok || in || m.banned[addr] || len(m.in) >= maxTable {
		return
	}
	m.in[addr] = 0
	m.sends[addr] = sends
}

func (m *tableModel) ban(addr string) {
	m.banned[addr] = true
	delete(m.in, addr)
}

func (m *tableModel) peers(caps uint32) (out []string) {
	for a, c := range m.in {
		if c&caps == caps && m.sends[a] {
			out = append(out, a)
		}
	}
	return
}

// address draws an address from a small set, and tells what becomes of it.
func address(t *rapid.T) (addr string, ok, sends bool) {
	switch rapid.IntRange(0, 9).Draw(t, "address kind") {
	case 0:
		return rapid.SampledFrom(malformed).Draw(t, "malformed"), false, false
	case 1:
		return fmt.Sprintf(":%d", rapid.IntRange(1, 3).Draw(t, "port")), true, false
	case 2:
		a := ref.Addr{IP: []byte{byte(rapid.IntRange(223, 240).Draw(t, "first")), 1, 2, 3}, Port: 80}
		return host(a), tableTakes(a), true
	case 3:
		a := ref.Addr{IP: append([]byte{rapid.SampledFrom([]byte{0xff, 0xfe, 0x20}).Draw(t, "first"), 2}, make([]byte, 14)...), Port: uint16(rapid.IntRange(0, 1).Draw(t, "port"))}
		return host(a), tableTakes(a), true
	case 4:
		return rapid.SampledFrom([]string{"127.0.0.1:80", "0.0.0.0:80", "255.255.255.255:80", "[::1]:80", "[::]:80", "192.168.1.1:65535", "1.2.3.4:1",
			"169.254.1.2:80", "[fe80::1]:80", "[fc00::1]:80", "[fec0::1]:80", "10.0.0.1:80", "172.16.0.1:80", "100.64.0.1:80", "192.0.2.1:80", "198.18.0.1:80",
			"[2001:db8::1]:80", "[64:ff9b::102:304]:80", "[2002:102:304::]:80", "0.1.2.3:80", "240.0.0.1:80", "127.1.2.3:80"}).Draw(t, "special"), true, true
	case 5: // same host, other ports
		return fmt.Sprintf("1.2.3.4:%d", rapid.IntRange(1, 4).Draw(t, "port")), true, true
	}
	a := wireAddr(t)
	return host(a), tableTakes(a), true
}

func checkPeers(c *kit.Case, n *node, m *tableModel, caps uint32) {
	var got []string
	c.Must("Peers", func() { got = n.table(caps) })
	want := m.peers(caps)
	if len(want) > ref.MaxAddrs {
		if len(got) != ref.MaxAddrs {
			c.Fatalf("Peers(%d) returns %d of %d peers", caps, len(got), len(want))
		}
		known := map[string]bool{}
		for _, a := range want {
			known[a] = true
		}
		for _, a := range got {
			if !known[a] {
				c.Fatalf("Peers(%d) returns %s, or returns it twice", caps, a)
			}
			delete(known, a)
		}
		return
	}
	sort.Strings(got)
	sort.Strings(want)
	if strings.Join(got, " ") != strings.Join(want, " ") {
		c.Fatalf("Peers(%d) returns %v, and the peers are %v", caps, got, want)
	}
}

// TestC25: the table of peers.
func TestC25(t *testing.T) {
	p := kit.New(t, "C25", "a history in which the table has entries and one is banned, added again or refused",
		"addresses are IP literals: names aren't looked up")

	p.Part("history", kit.Budget{Quick: 4000, Thorough: 200000, Shards: 8, Journal: true}, func(c *kit.Case) {
		m := newTableModel()
		var initial []string
		for k := small(c.T, "initial", 5); k > 0; k-- {
			a, ok, sends := address(c.T)
			initial = append(initial, a)
			m.add(a, ok, sends)
		}
		var n *node
		c.Must("NewSyncer", func() { n = newNode(newModel(), false, initial...) })
		c.Note("initial: %q", initial)
		refused := false
		for k := rapid.IntRange(1, 30).Draw(c.T, "operations"); k > 0; k-- {
			a, ok, sends := address(c.T)
			switch op := rapid.SampledFrom([]string{"add", "add", "add", "many", "ban", "peers", "info", "caps"}).Draw(c.T, "operation"); op {
			case "add":
				c.Note("add %q", a)
				_, in := m.in[a]
				refused = refused || !ok || in || m.banned[a]
				m.add(a, ok, sends)
				c.Must("Add", func() { n.Pool.Add(a) })
			case "many":
				if rapid.IntRange(0, 3).Draw(c.T, "really") > 0 {
					break
				}
				third, count := rapid.IntRange(0, 255).Draw(c.T, "third"), rapid.OneOf(rapid.IntRange(1, 256), rapid.IntRange(1, 256), rapid.IntRange(256, 3000)).Draw(c.T, "count")
				banned := rapid.SampledFrom([]string{"added", "added", "banned", "added and banned"}).Draw(c.T, "banned")
				c.Note("%d addresses from 12.0.%d.0 are %s", count, third, banned)
				c.Must("Add and Ban", func() {
					for i := 0; i < count; i++ {
						x := fmt.Sprintf("12.%d.%d.%d:3414", (third+i>>8)>>8, (third+i>>8)&255, i&255)
						if banned != "banned" {
							m.add(x, true, true)
							n.Pool.Add(x)
						}
						if banned != "added" {
							m.ban(x)
							n.Pool.Ban(x)
						}
					}
				})
			case "ban":
				if !ok && rapid.Bool().Draw(c.T, "good one") {
					break
				}
				c.Note("ban %q", a)
				_, in := m.in[a]
				refused = refused || in
				m.ban(a)
				c.Must("Ban", func() { n.Pool.Ban(a) })
			case "peers":
				caps := rapid.OneOf(rapid.Just(uint32(0)), rapid.Uint32Range(0, 8)).Draw(c.T, "caps")
				c.Note("peers %d", caps)
				checkPeers(c, n, m, caps)
			case "info":
				_, in := m.in[a]
				c.Must("PeerInfo", func() {
					if got := n.Pool.PeerInfo(a) != nil; got != in {
						c.Fatalf("PeerInfo(%q) finds it: %v, and it is there: %v", a, got, in)
					}
				})
				if got := n.isBan(c, a); got != m.banned[a] {
					c.Fatalf("IsBan(%q) is %v", a, got)
				}
			case "caps":
				if _, in := m.in[a]; in {
					caps := rapid.Uint32Range(0, 8).Draw(c.T, "caps")
					c.Note("%q has capabilities %d", a, caps)
					m.in[a] = caps
					pi := n.Pool.PeerInfo(a)
					pi.Lock()
					pi.Capabilities = consensus.Capabilities(caps)
					pi.Unlock()
				}
			}
		}
		checkPeers(c, n, m, 0)
		for a := range m.banned {
			if !n.isBan(c, a) || n.Pool.PeerInfo(a) != nil {
				c.Fatalf("%q isn't banned any more", a)
			}
		}
		for a := range m.in {
			if n.isBan(c, a) || n.Pool.PeerInfo(a) == nil {
				c.Fatalf("%q is gone", a)
			}
		}
		if refused && len(m.in) > 0 {
			c.NonTrivial()
		}
		noFatal(c)
	})

	p.Part("full", kit.Budget{Quick: 40, Thorough: 1000, Shards: 8, Journal: true, Shrink: 5 * time.Second}, func(c *kit.Case) {
		m := newTableModel()
		n := newNode(newModel(), false)
		k := maxTable - rapid.IntRange(0, 2).Draw(c.T, "short of full")
		c.Must("Add", func() {
			for i := 0; i < k; i++ {
				x := fmt.Sprintf("12.%d.%d.%d:3414", i>>16, i>>8&255, i&255)
				m.add(x, true, true)
				n.Pool.Add(x)
			}
		})
		c.Note("%d entries", k)
		for i := rapid.IntRange(1, 12).Draw(c.T, "operations"); i > 0; i-- {
			a := fmt.Sprintf("13.0.0.%d:3414", rapid.IntRange(0, 5).Draw(c.T, "address"))
			if rapid.IntRange(0, 3).Draw(c.T, "old one") == 0 {
				a = fmt.Sprintf("12.0.0.%d:3414", rapid.IntRange(0, 5).Draw(c.T, "address"))
			}
			if rapid.IntRange(0, 2).Draw(c.T, "ban") == 0 {
				c.Note("ban %s", a)
				m.ban(a)
				c.Must("Ban", func() { n.Pool.Ban(a) })
			} else {
				c.Note("add %s", a)
				m.add(a, true, true)
				c.Must("Add", func() { n.Pool.Add(a) })
			}
			for j := 0; j < 6; j++ {
				for _, a := range []string{fmt.Sprintf("13.0.0.%d:3414", j), fmt.Sprintf("12.0.0.%d:3414", j)} {
					if _, in := m.in[a]; in != (n.Pool.PeerInfo(a) != nil) {
						c.Fatalf("%s should be in the table: %v", a, in)
					}
				}
			}
		}
		checkPeers(c, n, m, 0)
		c.NonTrivial()
	})

	// The table of a node that runs: what is listed when peers are connected,
	// hang up and don't answer.
	p.Part("running", kit.Budget{Quick: 48, Thorough: 1200, Shards: 48, Journal: true, Shrink: 5 * time.Second}, func(c *kit.Case) {
		var rs []*remote
		var caps []uint32
		for k := rapid.IntRange(1, 4).Draw(c.T, "peers"); k > 0; k-- {
			x := rapid.OneOf(rapid.Just(uint32(7)), rapid.Uint32Range(0, 15), rapid.Uint32()).Draw(c.T, "caps")
			caps = append(caps, x)
			r := newRemote(func(l *link) error { return greetAs(l, 1, x) })
			defer r.close()
			rs = append(rs, r)
		}
		var dead []string
		for k := rapid.IntRange(0, 2).Draw(c.T, "dead peers"); k > 0; k-- {
			addr, done := refusing()
			defer done()
			dead = append(dead, addr)
		}
		before := time.Now()
		n := newNode(newModel(), false)
		for _, r := range rs {
			n.Pool.Add(r.addr)
		}
		for _, a := range dead {
			n.Pool.Add(a)
		}
		n.start()
		defer n.stop()
		up(c, rs...)
		c.NonTrivial([]byte(fmt.Sprint(caps, len(dead))))
		listed := func(when string) {
			ask := rapid.OneOf(rapid.Just(uint32(0)), rapid.SampledFrom(caps), rapid.Uint32Range(0, 15)).Draw(c.T, "asked for")
			l := n.table(ask)
			for i, r := range rs {
				var version, known uint32
				var last time.Time
				if !eventually(func() bool {
					pi := n.Pool.PeerInfo(r.addr)
					if pi == nil {
						return false
					}
					pi.Lock()
					defer pi.Unlock()
					version, known, last = pi.ProtocolVersion, uint32(pi.Capabilities), pi.LastConn
					return version == 1 && known == caps[i] && !last.Before(before) && !last.After(time.Now())
				}) {
					c.Fatalf("%s: peer %d with version 1 and capabilities %d is known with %d and %d, connected at %v (started at %v)", when, i, caps[i], version, known, last, before)
				}
				if want := caps[i]&ask == ask; has(l, r.addr) != want {
					c.Fatalf("%s: peer %d with capabilities %d is listed for %d: %v", when, i, caps[i], ask, !want)
				}
			}
			for _, a := range dead {
				if ask != 0 && has(l, a) {
					c.Fatalf("%s: a peer that was never connected is listed for %d", when, ask)
				}
			}
		}
		listed("connected")
		stay := func(when string) {
			for _, a := range append([]string{}, dead...) {
				if n.Pool.PeerInfo(a) == nil || n.isBan(c, a) {
					c.Fatalf("%s: a peer that can't be reached isn't in the table any more", when)
				}
			}
		}
		stay("connected")
		// all have been tried by now, or will be
		if !eventually(func() bool {
			l := n.table(0)
			for _, a := range dead {
				if has(l, a) {
					return false
				}
			}
			return true
		}) {
			c.Fatalf("peers that can't be reached are listed")
		}
		for k := rapid.IntRange(0, 2).Draw(c.T, "hang-ups"); k > 0; k-- {
			i := rapid.IntRange(0, len(rs)-1).Draw(c.T, "who")
			c.Note("peer %d hangs up", i)
			old := rs[i].live()
			old.hangUp()
			for end := time.Now().Add(400 * time.Millisecond); time.Now().Before(end); time.Sleep(3 * time.Millisecond) {
				if caps := caps[i]; !has(n.table(caps), rs[i].addr) {
					c.Fatalf("peer %d isn't listed after it hung up", i)
				}
			}
			if !within(2*patience, func() bool { l := rs[i].live(); return l != nil && l != old && len(l.log()) >= 2 }) {
				c.Fatalf("peer %d isn't connected again", i)
			}
			listed("connected again")
		}
		if len(dead) > 0 { // that are tried once per second, all in all
			time.Sleep(time.Duration(rapid.IntRange(0, 6000).Draw(c.T, "wait")) * time.Millisecond)
			stay("after a while")
		}
		if rapid.IntRange(0, 2).Draw(c.T, "fill") == 0 {
			c.Note("fill the table")
			count := len(rs) + len(dead)
			free := maxTable - count
			for i := 0; i < maxTable+20; i++ {
				// where nobody listens
				a := fmt.Sprintf("127.100.%d.%d:1", i>>8, i&255)
				n.Pool.Add(a)
				if in := n.Pool.PeerInfo(a) != nil; in != (i < free) {
					c.Fatalf("%d peers are in the table, %d of them connected, and then %s: %v", count+min(i, free), len(rs), a, in)
				}
			}
		}
		noFatal(c)
		n.stop()
		if !n.stopped() {
			c.Fatalf("Run doesn't return")
		}
	})

	p.Part("concurrent", kit.Budget{Quick: 400, Thorough: 20000, Shards: 8, Journal: true, Shrink: 5 * time.Second}, func(c *kit.Case) {
		workers := rapid.IntRange(2, 8).Draw(c.T, "workers")
		each := rapid.IntRange(10, 200).Draw(c.T, "operations")
		shared := rapid.IntRange(1, 6).Draw(c.T, "shared addresses")
		full := rapid.IntRange(0, 3).Draw(c.T, "nearly full") == 0
		c.Note("%d workers, %d operations each, %d shared addresses, nearly full: %v", workers, each, shared, full)
		c.NonTrivial(gen8(rapid.Uint64().Draw(c.T, "seed")))
		n := newNode(newModel(), false)
		n.Pool.Ban("9.9.9.9:9")
		base := 0
		if full {
			base = maxTable - workers*each/2
			for i := 0; i < base; i++ {
				n.Pool.Add(fmt.Sprintf("12.%d.%d.%d:3414", i>>16, i>>8&255, i&255))
			}
		}
		var wg sync.WaitGroup
		var mu sync.Mutex
		var problems []string
		complain := func(format string, args ...any) {
			mu.Lock()
			problems = append(problems, fmt.Sprintf(format, args...))
			mu.Unlock()
		}
		work := func(w int) {
			defer wg.Done()
			for i := 0; i < each; i++ {
				own := fmt.Sprintf("20.%d.%d.%d:3414", w, i>>8, i&255)
				common := fmt.Sprintf("21.0.0.%d:3414", (w*7+i)%shared)
				n.Pool.Add(own)
				n.Pool.Add(common)
				n.Pool.Add("9.9.9.9:9")
				switch (w + i) % 5 {
				case 0:
					n.Pool.Ban(own)
					if n.Pool.PeerInfo(own) != nil {
						complain("%s is in the table after its ban", own)
					}
				case 1:
					if i%3 == 0 {
						n.Pool.Ban(common)
						if n.Pool.PeerInfo(common) != nil {
							complain("%s is in the table after its ban", common)
						}
					}
				case 2:
					if l := n.table(0); len(l) > ref.MaxAddrs || has(l, "9.9.9.9:9") {
						complain("Peers returns %d addresses, or a banned one", len(l))
					}
				case 3:
					if !full && n.Pool.PeerInfo(own) == nil {
						complain("%s isn't in the table", own)
					}
				}
			}
		}
		c.Must("the operations", func() {
			for w := 0; w < workers; w++ {
				wg.Add(1)
				go work(w)
			}
			wg.Wait()
		})
		if len(problems) > 0 {
			c.Fatalf("%s", problems[0])
		}
		count := 0
		check := func(a string, banned bool) {
			in := n.Pool.PeerInfo(a) != nil
			if in {
				count++
			}
			if banned && in || !banned && !full && !in || n.isBan(c, a) != banned {
				c.Fatalf("%s: in the table: %v, banned: %v, and should be banned: %v", a, in, n.isBan(c, a), banned)
			}
		}
		sharedBanned := map[string]bool{}
		for w := 0; w < workers; w++ {
			for i := 0; i < each; i++ {
				check(fmt.Sprintf("20.%d.%d.%d:3414", w, i>>8, i&255), (w+i)%5 == 0)
				if (w+i)%5 == 1 && i%3 == 0 {
					sharedBanned[fmt.Sprintf("21.0.0.%d:3414", (w*7+i)%shared)] = true
				}
			}
		}
		for i := 0; i < min(shared, workers*each); i++ {
			a := fmt.Sprintf("21.0.0.%d:3414", i)
			if sharedBanned[a] {
				check(a, true)
			} else if n.Pool.PeerInfo(a) != nil {
				count++
			}
		}
		if base+count > maxTable {
			c.Fatalf("%d entries", base+count)
		}
		noFatal(c)
	})
}

func gen8(x uint64) []byte { return []byte(fmt.Sprint(x)) }
