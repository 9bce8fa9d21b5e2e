package wire

import (
	"bytes"
	"errors"
	"io"
	"testing"

	"github.com/dblokhin/gringo/consensus"
	"github.com/dblokhin/gringo/p2p"
	"pgregory.net/rapid"

	"verif/harness/gen"
	"verif/harness/kit"
	"verif/harness/ref"
)

// raw is a message with any type and body, that takes as much as it is told to.
type raw struct {
	typ  uint8
	body []byte
	take int
	fail bool
	got  []byte
}

var errRefused = errors.New("refused")

func (m *raw) Bytes() []byte { return m.body }
func (m *raw) Type() uint8   { return m.typ }
func (m *raw) Read(r io.Reader) error {
	m.got = make([]byte, m.take)
	n, err := io.ReadFull(r, m.got)
	m.got = m.got[:n]
	if err == nil && m.fail {
		err = errRefused
	}
	return err
}

// wall fails after some bytes.
type wall struct {
	buf  bytes.Buffer
	left int
}

func (w *wall) Write(p []byte) (int, error) {
	n := min(len(p), w.left)
	w.buf.Write(p[:n])
	w.left -= n
	if n < len(p) {
		return n, errBroken
	}
	return n, nil
}

type frame struct {
	typ   uint8
	body  []byte
	extra int // bytes after the part that the message takes
}

// TestC05: frames.
func TestC05(t *testing.T) {
	p := kit.New(t, "C05", "a stream of at least two frames, or a corrupted frame header")

	body := func(t *rapid.T) []byte {
		return gen.Bytes(t, "body", rapid.OneOf(rapid.IntRange(0, 40), rapid.IntRange(0, 9000)).Draw(t, "length"))
	}

	// What is written is the frames, one after the other, and reading takes
	// them off one by one, whatever the messages make of their bodies.
	p.Part("stream", kit.Budget{Quick: 15000, Thorough: 600000, Shards: 8}, func(c *kit.Case) {
		n := rapid.IntRange(1, 6).Draw(c.T, "frames")
		var stream, want bytes.Buffer
		var l []frame
		for i := 0; i < n; i++ {
			f := frame{typ: rapid.Byte().Draw(c.T, "type"), body: body(c.T)}
			if rapid.Bool().Draw(c.T, "longer") && len(f.body) > 0 {
				f.extra = rapid.IntRange(0, len(f.body)).Draw(c.T, "extra")
			}
			l = append(l, f)
			var num uint64
			var err error
			c.Must("WriteMessage", func() { num, err = p2p.WriteMessage(&stream, &raw{typ: f.typ, body: f.body}) })
			if err != nil || num != uint64(11+len(f.body)) {
				c.Fatalf("writing a body of %d bytes: %d bytes written, %v", len(f.body), num, err)
			}
			want.Write(ref.Frame(f.typ, f.body))
			c.Note("type %d, %d bytes, %d of them not taken", f.typ, len(f.body), f.extra)
		}
		if !bytes.Equal(stream.Bytes(), want.Bytes()) {
			c.Fatalf("frames written wrongly: %s", diff(stream.Bytes(), want.Bytes()))
		}
		if n > 1 {
			c.NonTrivial()
		}
		end := rapid.IntRange(0, 3).Draw(c.T, "trailing")
		r, left := reader(c.T, append(want.Bytes(), make([]byte, end)...))
		rest := want.Len() + end
		for i, f := range l {
			m := &raw{typ: f.typ, take: len(f.body) - f.extra}
			// a message that takes less and then refuses, or wants more
			odd := rapid.IntRange(0, 19).Draw(c.T, "odd")
			if odd == 0 {
				m.fail = true
			} else if odd == 1 {
				m.take = len(f.body) + 1
			} else if odd == 2 {
				m.typ++
			}
			var num uint64
			var err error
			c.Must("ReadMessage", func() { num, err = p2p.ReadMessage(r, m) })
			if odd <= 2 {
				if err == nil {
					c.Fatalf("frame %d: no error from message %+v", i, *m)
				}
				if odd == 1 && !bytes.Equal(m.got, f.body) {
					c.Fatalf("frame %d: the message got %d bytes of a body of %d", i, len(m.got), len(f.body))
				}
				if odd == 2 && m.got != nil {
					c.Fatalf("frame %d: a message of another type was decoded", i)
				}
				c.Class("refused")
				return
			}
			if err != nil {
				c.Fatalf("frame %d: %v", i, err)
			}
			if num != uint64(11+len(f.body)) {
				c.Fatalf("frame %d of %d bytes: %d bytes read", i, 11+len(f.body), num)
			}
			if !bytes.Equal(m.got, f.body[:m.take]) {
				c.Fatalf("frame %d: %s", i, diff(m.got, f.body[:m.take]))
			}
			rest -= 11 + len(f.body)
			if left() != rest {
				c.Fatalf("frame %d: %d bytes are left, not %d", i, left(), rest)
			}
		}
		c.Class("%d frames", n)
	})

	// Real messages through a frame
	p.Part("messages", kit.Budget{Quick: 6000, Thorough: 200000, Shards: 8}, func(c *kit.Case) {
		x := rapid.SampledFrom(targets).Draw(c.T, "kind")
		b, _ := x.Gen(c.T)
		extra := gen.Bytes(c.T, "extra", rapid.SampledFrom([]int{0, 0, 1, 100}).Draw(c.T, "extra bytes"))
		cut := rapid.SampledFrom([]int{0, 0, 1, 20}).Draw(c.T, "cut")
		cut = min(cut, len(b))
		if cut > 0 {
			extra = nil
		}
		in := cat(b[:len(b)-cut], extra)
		c.Note("%s, frame of %d bytes: %d too many, %d missing: %s", x.Name, len(in), len(extra), cut, brief(in))
		c.NonTrivial()
		after := []byte{0x54, 0x34, 3, 0, 0, 0, 0, 0, 0, 0, 16, 1, 2, 3, 4, 5, 6, 7, 8, 1, 2, 3, 4, 5, 6, 7, 8}
		r, left := reader(c.T, cat(ref.Frame(x.Wire().Type, in), after))
		m := x.Mk()
		var num uint64
		var err error
		c.Must("ReadMessage", func() { num, err = p2p.ReadMessage(r, m) })
		if cut > 0 {
			// it must not read on into the next frame
			if err == nil {
				c.Fatalf("a message cut short by %d bytes is accepted", cut)
			}
			if left() < len(after) {
				c.Fatalf("reading went %d bytes into the next frame", len(after)-left())
			}
			return
		}
		if err != nil || num != uint64(11+len(in)) || left() != len(after) {
			c.Fatalf("%d bytes read of a frame of %d, %d bytes of the %d that follow are left: %v", num, 11+len(in), left(), len(after), err)
		}
		var next p2p.Ping
		c.Must("ReadMessage", func() { num, err = p2p.ReadMessage(r, &next) })
		if err != nil || next.TotalDifficulty != 0x0102030405060708 {
			c.Fatalf("the next message is read as %v, %v", next, err)
		}
		var w bytes.Buffer
		c.Must("WriteMessage", func() { num, err = p2p.WriteMessage(&w, m) })
		if want := ref.Frame(x.Wire().Type, m.Bytes()); err != nil || num != uint64(len(want)) || !bytes.Equal(w.Bytes(), want) {
			c.Fatalf("written as %d bytes, %v: %s", num, err, diff(w.Bytes(), want))
		}
	})

	// Headers
	p.Part("header", kit.Budget{Quick: 30000, Thorough: 1000000, Shards: 8}, func(c *kit.Case) {
		b := gen.Bytes(c.T, "body", rapid.IntRange(0, 30).Draw(c.T, "length"))
		magic := []byte{0x54, 0x34}
		n := uint64(len(b))
		typ, want := rapid.Byte().Draw(c.T, "type"), byte(0)
		want = typ
		bad := true
		switch rapid.IntRange(0, 5).Draw(c.T, "fault") {
		case 0:
			magic[rapid.IntRange(0, 1).Draw(c.T, "byte")] ^= 1 << rapid.IntRange(0, 7).Draw(c.T, "bit")
		case 1:
			magic = rapid.SliceOfN(rapid.Byte(), 2, 2).Draw(c.T, "magic")
			bad = magic[0] != 0x54 || magic[1] != 0x34
		case 2:
			n = rapid.OneOf(rapid.Uint64Range(ref.MaxMsg+1, 1<<64-1), rapid.SampledFrom([]uint64{ref.MaxMsg + 1, 1 << 31, 1 << 32, 1<<63 - 1, 1 << 63, 1<<64 - 1})).Draw(c.T, "announced")
		case 3:
			want ^= 1 << rapid.IntRange(0, 7).Draw(c.T, "bit")
		case 4:
			// announced, not sent
			n += uint64(rapid.IntRange(1, 100).Draw(c.T, "missing"))
		default:
			bad = false
		}
		f := cat(magic, []byte{typ}, be(8, n), b)
		cut := 0
		if rapid.IntRange(0, 3).Draw(c.T, "cut") == 0 {
			cut = rapid.IntRange(1, len(f)).Draw(c.T, "cut to")
			f = f[:len(f)-cut]
			bad = true
		}
		c.Note("%x, wanted type %d", f, want)
		if bad {
			c.NonTrivial()
		}
		m := &raw{typ: want, take: len(b)}
		r, _ := reader(c.T, f)
		var err error
		c.Must("ReadMessage", func() { _, err = p2p.ReadMessage(r, m) })
		if (err != nil) != bad {
			c.Fatalf("error %v", err)
		}
		if n > ref.MaxMsg && len(m.got) > 0 {
			c.Fatalf("a message of %d bytes was decoded", n)
		}

		// The exported header
		var h p2p.Header
		var herr error
		c.Must("Header.Read", func() { herr = h.Read(bytes.NewReader(f)) })
		if ok := len(f) >= 11 && magic[0] == 0x54 && magic[1] == 0x34; ok != (herr == nil) {
			c.Fatalf("header: %v", herr)
		} else if ok {
			if h.Type != typ || h.Len != n {
				c.Fatalf("header read as %+v", h)
			}
			var w bytes.Buffer
			c.Must("Header.Write", func() { herr = h.Write(&w) })
			if hb := h.Bytes(); herr != nil || !bytes.Equal(w.Bytes(), f[:11]) || !bytes.Equal(hb, f[:11]) {
				c.Fatalf("header written as %x and %x, %v", w.Bytes(), hb, herr)
			}
		}
	})

	// Errors of the connection come through.
	p.Part("broken writer", kit.Budget{Quick: 4000, Thorough: 100000, Shards: 8}, func(c *kit.Case) {
		b := body(c.T)
		n := rapid.IntRange(0, 10+len(b)).Draw(c.T, "written")
		c.Note("%d bytes of %d can be written", n, 11+len(b))
		c.NonTrivial()
		w := &wall{left: n}
		var err error
		c.Must("WriteMessage", func() { _, err = p2p.WriteMessage(w, &raw{typ: 3, body: b}) })
		if err == nil {
			c.Fatalf("no error, although %d bytes are missing", 11+len(b)-n)
		}
		if want := ref.Frame(3, b); !bytes.Equal(w.buf.Bytes(), want[:n]) {
			c.Fatalf("written: %s", diff(w.buf.Bytes(), want[:n]))
		}
	})

	// The largest message
	p.Part("largest", kit.Budget{Quick: 6, Thorough: 60, Shards: 2}, func(c *kit.Case) {
		n := ref.MaxMsg - rapid.IntRange(0, 3).Draw(c.T, "less")
		c.Note("%d bytes", n)
		c.NonTrivial()
		m := &raw{typ: 7, take: n - rapid.IntRange(0, 2).Draw(c.T, "extra")}
		f := ref.Frame(7, make([]byte, n))
		var num uint64
		var err error
		c.Must("ReadMessage", func() { num, err = p2p.ReadMessage(bytes.NewReader(f), m) })
		if err != nil || num != uint64(n+11) {
			c.Fatalf("%d bytes read, %v", num, err)
		}
	})

	if consensus.MagicCode != [2]byte{0x54, 0x34} || consensus.HeaderLen != 11 {
		t.Errorf("magic %x, header length %d", consensus.MagicCode, consensus.HeaderLen)
	}
}
