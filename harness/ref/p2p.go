package ref

import "bytes"

// Addr is a network address on the wire: IPv4 (4 bytes) or IPv6 (16).
type Addr struct {
	IP   []byte
	Port uint16
}

func (a Addr) Bytes() []byte {
	b := new(bytes.Buffer)
	if len(a.IP) == 16 {
		b.WriteByte(1)
	} else {
		b.WriteByte(0)
	}
	b.Write(a.IP)
	be16(b, a.Port)
	return b.Bytes()
}

// Unmap turns an IPv4 address in IPv6 clothes into an IPv4 address.
func (a Addr) Unmap() Addr {
	if len(a.IP) == 16 && bytes.Equal(a.IP[:12], []byte{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0xff, 0xff}) {
		a.IP = a.IP[12:]
	}
	return a
}

// ParseAddr reads an address.
func ParseAddr(r *Reader) (a Addr) {
	switch r.U8() {
	case 0:
		a.IP = append([]byte{}, r.Take(4)...)
	case 1:
		a.IP = append([]byte{}, r.Take(16)...)
	default:
		r.Bad = true
	}
	a.Port = r.U16()
	return
}

// Addrs is the message with addresses.
func Addrs(l []Addr) []byte {
	b := new(bytes.Buffer)
	be32(b, uint32(len(l)))
	for _, a := range l {
		b.Write(a.Bytes())
	}
	return b.Bytes()
}

// Status is a ping or pong.
func Status(td, height uint64) []byte {
	b := new(bytes.Buffer)
	be64(b, td)
	be64(b, height)
	return b.Bytes()
}

// U32 is a message of one number.
func U32(v uint32) []byte {
	b := new(bytes.Buffer)
	be32(b, v)
	return b.Bytes()
}

// PeerError is the error message.
func PeerError(code uint32, msg string) []byte {
	b := new(bytes.Buffer)
	be32(b, code)
	be64(b, uint64(len(msg)))
	b.WriteString(msg)
	return b.Bytes()
}

// Headers is the message with block headers.
func Headers(l []Header) []byte {
	b := new(bytes.Buffer)
	be16(b, uint16(len(l)))
	for i := range l {
		b.Write(l[i].Bytes())
	}
	return b.Bytes()
}

// Locator is the request for headers.
func Locator(l [][32]byte) []byte {
	b := []byte{uint8(len(l))}
	for i := range l {
		b = append(b, l[i][:]...)
	}
	return b
}

// Hand opens a handshake, Shake answers it.
type Hand struct {
	Version, Caps    uint32
	Nonce, TD        uint64
	Sender, Receiver Addr
	Agent            string
	Genesis          [32]byte
}

func (h *Hand) Bytes() []byte {
	b := new(bytes.Buffer)
	be32(b, h.Version)
	be32(b, h.Caps)
	be64(b, h.Nonce)
	be64(b, h.TD)
	b.Write(h.Sender.Bytes())
	b.Write(h.Receiver.Bytes())
	be64(b, uint64(len(h.Agent)))
	b.WriteString(h.Agent)
	b.Write(h.Genesis[:])
	return b.Bytes()
}

// ParseHand reads the message's body, all of it.
func ParseHand(p []byte) (h Hand, ok bool) {
	r := &Reader{B: p}
	h.Version, h.Caps, h.Nonce, h.TD = r.U32(), r.U32(), r.U64(), r.U64()
	h.Sender, h.Receiver = ParseAddr(r), ParseAddr(r)
	n := r.U64()
	if n > uint64(len(p)) {
		return h, false
	}
	h.Agent = string(r.Take(int(n)))
	copy(h.Genesis[:], r.Take(32))
	return h, !r.Bad && len(r.B) == 0
}

type Shake struct {
	Version, Caps uint32
	TD            uint64
	Agent         string
	Genesis       [32]byte
}

func (h *Shake) Bytes() []byte {
	b := new(bytes.Buffer)
	be32(b, h.Version)
	be32(b, h.Caps)
	be64(b, h.TD)
	be64(b, uint64(len(h.Agent)))
	b.WriteString(h.Agent)
	b.Write(h.Genesis[:])
	return b.Bytes()
}

func ParseShake(p []byte) (h Shake, ok bool) {
	r := &Reader{B: p}
	h.Version, h.Caps, h.TD = r.U32(), r.U32(), r.U64()
	n := r.U64()
	if n > uint64(len(p)) {
		return h, false
	}
	h.Agent = string(r.Take(int(n)))
	copy(h.Genesis[:], r.Take(32))
	return h, !r.Bad && len(r.B) == 0
}

// Frame puts a message header before a body.
func Frame(typ uint8, body []byte) []byte { return FrameLen(typ, uint64(len(body)), body) }

// FrameLen states any length.
func FrameLen(typ uint8, n uint64, body []byte) []byte {
	b := bytes.NewBuffer([]byte{0x54, 0x34, typ})
	be64(b, n)
	b.Write(body)
	return b.Bytes()
}

// Limits of the protocol.
const (
	MaxMsg     = 20000000
	MaxHeaders = 512
	MaxAddrs   = 256
	MaxLocator = 14
	MaxString  = 100000
	MaxItems   = 1000000
)

// Message types.
const (
	TError, THand, TShake, TPing, TPong        = 0, 1, 2, 3, 4
	TGetAddrs, TAddrs, TGetHeaders, THeader    = 5, 6, 7, 8
	THeaders, TGetBlock, TBlock, TCompact, TTx = 9, 10, 11, 13, 15
)

// Wire is a kind of message body: Parse decodes one off the front of p by the
// rules of the protocol, and tells how many bytes it took and what it encodes to
// again when the lists are left in their order.
type Wire struct {
	Type  uint8
	Parse func(p []byte) (canonical []byte, n int, ok bool)
}

// time range of chrono::NaiveDateTime, in which the protocol's reference
// implementation keeps times
const (
	minTime = -8334632851200
	maxTime = 8210298412799
)

func timeOK(h *Header) bool { return h.Time >= minTime && h.Time <= maxTime }

// RangeProofSize is the size of every range proof of one 64-bit value.
const RangeProofSize = 675

// clean tells whether the items are valid encodings, and clears the bits of the
// range proofs that mean nothing.
func (t *Body) clean() bool {
	for i := range t.Outputs {
		o := &t.Outputs[i]
		if o.Commit[0]&^1 != 8 || len(o.Proof) != RangeProofSize {
			return false
		}
		o.Proof[64] &= 0x0f
		o.Proof[32+32+129+32+128+1] &= 0x03
	}
	for i := range t.Kernels {
		if t.Kernels[i].Excess[0]&^1 != 8 {
			return false
		}
	}
	return len(t.Inputs) <= MaxItems && len(t.Outputs) <= MaxItems && len(t.Kernels) <= MaxItems
}

func whole(f func(r *Reader) ([]byte, bool)) func(p []byte) ([]byte, int, bool) {
	return func(p []byte) ([]byte, int, bool) {
		r := &Reader{B: p}
		c, ok := f(r)
		if r.Bad || !ok {
			return nil, 0, false
		}
		return c, len(p) - len(r.B), true
	}
}

func parseHeader(r *Reader) ([]byte, bool) {
	h, err := ParseHeader(r)
	if err != nil || !timeOK(&h) {
		return nil, false
	}
	return h.Bytes(), true
}

// Wires are the kinds of messages, by name.
var Wires = map[string]Wire{
	"header": {THeader, whole(parseHeader)},
	"headers": {THeaders, whole(func(r *Reader) ([]byte, bool) {
		n := int(r.U16())
		if n > MaxHeaders {
			return nil, false
		}
		out := []byte{byte(n >> 8), byte(n)}
		for i := 0; i < n; i++ {
			b, ok := parseHeader(r)
			if !ok {
				return nil, false
			}
			out = append(out, b...)
		}
		return out, true
	})},
	"block": {TBlock, whole(func(r *Reader) ([]byte, bool) {
		h, err := ParseHeader(r)
		if err != nil || !timeOK(&h) {
			return nil, false
		}
		b, err := ParseBody(r)
		if err != nil || !b.clean() {
			return nil, false
		}
		return append(h.Bytes(), b.BytesAsGiven()...), true
	})},
	"transaction": {TTx, whole(func(r *Reader) ([]byte, bool) {
		off := append([]byte{}, r.Take(32)...)
		b, err := ParseBody(r)
		if err != nil || !b.ordered() || !b.clean() {
			return nil, false
		}
		return append(off, b.BytesAsGiven()...), true
	})},
	"compact": {TCompact, whole(func(r *Reader) ([]byte, bool) {
		h, err := ParseHeader(r)
		if err != nil || !timeOK(&h) {
			return nil, false
		}
		o, k := r.U8(), r.U8()
		ids := r.U64()
		var b Body
		for i := 0; i < int(o) && !r.Bad; i++ {
			b.Outputs = append(b.Outputs, parseOutput(r))
		}
		for i := 0; i < int(k) && !r.Bad; i++ {
			b.Kernels = append(b.Kernels, parseKernel(r))
		}
		if r.Bad || !b.clean() || ids > MaxItems {
			return nil, false
		}
		out := append(h.Bytes(), o, k)
		w := bytes.NewBuffer(out)
		be64(w, ids)
		for i := range b.Outputs {
			w.Write(b.Outputs[i].Bytes())
		}
		for i := range b.Kernels {
			w.Write(b.Kernels[i].Bytes())
		}
		w.Write(r.Take(6 * int(ids)))
		return w.Bytes(), true
	})},
	"ping":      {TPing, whole(func(r *Reader) ([]byte, bool) { return append([]byte{}, r.Take(16)...), true })},
	"pong":      {TPong, whole(func(r *Reader) ([]byte, bool) { return append([]byte{}, r.Take(16)...), true })},
	"get addrs": {TGetAddrs, whole(func(r *Reader) ([]byte, bool) { return append([]byte{}, r.Take(4)...), true })},
	"get block": {TGetBlock, whole(func(r *Reader) ([]byte, bool) { return append([]byte{}, r.Take(32)...), true })},
	"error": {TError, whole(func(r *Reader) ([]byte, bool) {
		code, n := r.U32(), r.U64()
		if n > MaxString {
			return nil, false
		}
		return PeerError(code, string(r.Take(int(n)))), true
	})},
	"addrs": {TAddrs, whole(func(r *Reader) ([]byte, bool) {
		n := r.U32()
		if n > MaxAddrs {
			return nil, false
		}
		var l []Addr
		for ; n > 0 && !r.Bad; n-- {
			l = append(l, ParseAddr(r).Unmap())
		}
		return Addrs(l), true
	})},
	"get headers": {TGetHeaders, whole(func(r *Reader) ([]byte, bool) {
		n := r.U8()
		if n > MaxLocator {
			return nil, false
		}
		return append([]byte{n}, r.Take(32*int(n))...), true
	})},
}

// ordered is InOrder without a say on the order of items with equal hashes.
func (t *Body) ordered() bool {
	le := func(a, b []byte) bool { return bytes.Compare(hash(a), hash(b)) <= 0 }
	for i := 1; i < len(t.Inputs); i++ {
		if !le(t.Inputs[i-1].Bytes(), t.Inputs[i].Bytes()) {
			return false
		}
	}
	for i := 1; i < len(t.Outputs); i++ {
		if !le(t.Outputs[i-1].bare(), t.Outputs[i].bare()) {
			return false
		}
	}
	for i := 1; i < len(t.Kernels); i++ {
		if !le(t.Kernels[i-1].Bytes(), t.Kernels[i].Bytes()) {
			return false
		}
	}
	return true
}

// Ordered tells whether the lists are in consensus order.
func (t *Body) Ordered() bool { return t.ordered() }
