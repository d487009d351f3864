package hnet

import (
	"github.com/tg123/phabrik/zzverif/href"
	"github.com/tg123/phabrik/zzverif/sym"
)

// header ids of the transport
const (
	HActor   = 0x8001
	HAction  = 0x8002
	HId      = 0x8003
	HRelates = 0x8004
	HExpects = 0x8005
	HRetry   = 0x8006
	HFault   = 0x8007
	HIdem    = 0x8008
	HPrio    = 0x8009
	HSecNego = 0x8048
	HInvalid = 0x8000
)

// Crc8 is the CRC-8 of polynomial x^8+x^2+x+1, bit by bit.
func Crc8(b []byte) byte {
	var c byte
	for _, x := range b {
		c ^= x
		for i := 0; i < 8; i++ {
			c = c<<1 ^ c>>7*7
		}
	}
	return c
}

// Crc32 is the IEEE CRC-32, bit by bit.
func Crc32(b []byte) uint32 {
	c := ^uint32(0)
	for _, x := range b {
		c ^= uint32(x)
		for i := 0; i < 8; i++ {
			c = c>>1 ^ c&1*0xedb88320
		}
	}
	return ^c
}

// Hdr is one message header.
type Hdr struct {
	Id   uint16
	Data []byte
}

// Hdrs writes message headers.
func Hdrs(hs ...Hdr) []byte {
	var out []byte
	for _, h := range hs {
		out = append(out, href.LE16(h.Id)...)
		out = append(out, href.LE16(uint16(len(h.Data)))...)
		out = append(out, h.Data...)
	}
	return out
}

// Head writes a frame header.
func Head(total uint32, mask byte, hlen uint16, crc byte, bcrc uint32) []byte {
	out := append(href.LE32(total), mask, crc)
	out = append(out, href.LE16(hlen)...)
	return append(out, href.LE32(bcrc)...)
}

// Frame writes a frame with a right header checksum and, if bodycrc is set,
// a body checksum.
func Frame(headers, body []byte, bodycrc bool) []byte {
	msg := append(append([]byte(nil), headers...), body...)
	total := uint32(12 + len(msg))
	crc := Crc8(Head(total, 0, uint16(len(headers)), 0, 0))
	var b uint32
	if bodycrc {
		b = Crc32(msg)
	}
	return append(Head(total, 0, uint16(len(headers)), crc, b), msg...)
}

// Msg is a frame taken apart.
type Msg struct {
	Mask, HCrc byte
	BCrc       uint32
	Hdrs       []Hdr
	Body       []byte
	All        []byte // headers and body
	Raw        []byte
}

// Get returns the headers of one type.
func (m *Msg) Get(id uint16) (out [][]byte) {
	for _, h := range m.Hdrs {
		if h.Id == id {
			out = append(out, h.Data)
		}
	}
	return
}

// Is tells whether the only header of a type is data.
func (m *Msg) Is(id uint16, data []byte) bool {
	g := m.Get(id)
	return len(g) == 1 && sym.BytesEq(g[0], data)
}

func le16(b []byte) int { return int(b[0]) | int(b[1])<<8 }
func le32(b []byte) uint32 {
	return uint32(b[0]) | uint32(b[1])<<8 | uint32(b[2])<<16 | uint32(b[3])<<24
}

// Parse takes a byte stream apart; ok is false if it is not a sequence of
// whole frames.
func Parse(s []byte) (ms []*Msg, ok bool) {
	for len(s) > 0 {
		if len(s) < 12 {
			return ms, false
		}
		total := sym.Concrete(int(le32(s)))
		hlen := sym.Concrete(le16(s[6:]))
		if total < 12+hlen || total > len(s) {
			return ms, false
		}
		m := &Msg{Mask: s[4], HCrc: s[5], BCrc: le32(s[8:]), All: s[12:total], Raw: s[:total], Body: s[12+hlen : total]}
		h := s[12 : 12+hlen]
		for len(h) > 0 {
			if len(h) < 4 {
				return ms, false
			}
			n := sym.Concrete(le16(h[2:]))
			if n > len(h)-4 {
				return ms, false
			}
			m.Hdrs = append(m.Hdrs, Hdr{uint16(sym.Concrete(le16(h))), h[4 : 4+n]})
			h = h[4+n:]
		}
		ms = append(ms, m)
		s = s[total:]
	}
	return ms, true
}

// encodings of the header values

func IdV(d1 uint32, d2, d3 uint16, d4 [8]byte, index uint32) []byte {
	return href.Obj(href.GuidV(d1, d2, d3, d4), href.U(href.UInt32, uint64(index)))
}
func ActorV(a int64) []byte   { return href.Obj(href.S(href.Int64, a)) }
func ActionV(s string) []byte { return href.Obj(href.Ascii(s)) }
func BoolV(b bool) []byte     { return href.Obj(href.BoolV(b)) }
func FaultV(code int64, body bool) []byte {
	return href.Obj(href.S(href.Int64, code), href.BoolV(body))
}
func RetryV(n int32) []byte { return href.Obj(href.S(href.Int32, int64(n))) }

// TickV is the body of a heartbeat.
func TickV(n int64) []byte { return href.Obj(href.S(href.Int64, n)) }
