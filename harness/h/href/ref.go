// Package href is an independent reference encoder of the Service Fabric
// object format, written from the format's description.
package href

import "github.com/tg123/phabrik/zzverif/sym"

// type bytes
const (
	Object  = 0x00
	Pointer = 0x01
	Bool    = 0x02
	Char    = 0x03
	UChar   = 0x04
	Short   = 0x05
	UShort  = 0x06
	Int32   = 0x07
	UInt32  = 0x08
	Int64   = 0x09
	UInt64  = 0x0A
	Double  = 0x0B
	Guid    = 0x0C
	WString = 0x0D

	Empty = 0x40
	Array = 0x80

	ScopeBegin = 0x1F
	ScopeEnd   = 0x2F
	ObjectEnd  = 0x3F
)

// Cat concatenates.
func Cat(parts ...[]byte) []byte {
	var out []byte
	for _, p := range parts {
		out = append(out, p...)
	}
	return out
}

func LE16(v uint16) []byte { return []byte{byte(v), byte(v >> 8)} }
func LE32(v uint32) []byte { return []byte{byte(v), byte(v >> 8), byte(v >> 16), byte(v >> 24)} }
func LE64(v uint64) []byte { return Cat(LE32(uint32(v)), LE32(uint32(v>>32))) }

// groups writes the low 7n bits of v, most significant group first, with the
// continuation bit on every byte but the last.
func groups(v uint64, n int) []byte {
	out := make([]byte, n)
	for i := 0; i < n; i++ {
		g := byte(v) & 0x7f
		if i > 0 {
			g |= 0x80
		}
		out[n-1-i] = g
		v = uint64(int64(v) >> 7)
	}
	return out
}

// PackU is the minimal unsigned base-128 form: the first group's top bit is
// the sign and has to be clear.
func PackU(v uint64) []byte {
	n := 1
	for n < 10 && v >= 1<<uint(7*n-1) {
		n++
	}
	if n == 10 {
		out := groups(v, 9)
		out[0] |= 0x80
		return append([]byte{byte(v>>63) | 0x80}, out...)
	}
	return groups(v, n)
}

// PackS is the minimal signed form.
func PackS(v int64) []byte {
	n := 1
	for n < 10 && (v >= 1<<uint(7*n-1) || v < -(1<<uint(7*n-1))) {
		n++
	}
	return groups(uint64(v), n)
}

// U encodes an unsigned 16-, 32- or 64-bit field.
func U(meta byte, v uint64) []byte {
	if v == 0 {
		return []byte{meta | Empty}
	}
	return Cat([]byte{meta}, PackU(v))
}

// S encodes a signed 16-, 32- or 64-bit field.
func S(meta byte, v int64) []byte {
	if v == 0 {
		return []byte{meta | Empty}
	}
	return Cat([]byte{meta}, PackS(v))
}

// B encodes an 8-bit field.
func B(meta byte, v byte) []byte {
	if v == 0 {
		return []byte{meta | Empty}
	}
	return []byte{meta, v}
}

func BoolV(v bool) []byte {
	return []byte{sym.IteU8(v, Empty|Bool, Empty|Bool|0x30)}
}

// F64 encodes a double given by its bits.
func F64(zero bool, b uint64) []byte {
	if zero {
		return []byte{Double | Empty}
	}
	return Cat([]byte{Double}, LE64(b))
}

// Str16 encodes a string given by its UTF-16 units.
func Str16(u []uint16) []byte {
	if len(u) == 0 {
		return []byte{Empty | Array | WString}
	}
	out := Cat([]byte{Array | WString}, PackU(uint64(len(u))))
	for _, x := range u {
		out = append(out, LE16(x)...)
	}
	return out
}

// Ascii encodes a string of characters below 0x80.
func Ascii(s string) []byte {
	u := make([]uint16, len(s))
	for i := range u {
		u[i] = uint16(s[i])
	}
	return Str16(u)
}

// GuidV encodes a GUID.
func GuidV(d1 uint32, d2, d3 uint16, d4 [8]byte) []byte {
	zero := sym.And(d1 == 0, d2 == 0, d3 == 0)
	for _, b := range d4 {
		zero = sym.And(zero, b == 0)
	}
	if zero {
		return []byte{Guid | Empty}
	}
	return Cat([]byte{Guid}, LE32(d1), LE16(d2), LE16(d3), d4[:])
}

// Obj frames the fields of an object.
func Obj(fields ...[]byte) []byte {
	body := Cat(fields...)
	// 8 header bytes, scope begin, scope end, object end
	size := uint32(len(body) + 8 + 3)
	return Cat([]byte{Object}, LE32(size), []byte{0, 0, 0, 0, ScopeBegin}, body, []byte{ScopeEnd, ObjectEnd})
}

// ObjTyped frames the fields of an object that carries type information.
func ObjTyped(info []byte, fields ...[]byte) []byte {
	body := Cat(fields...)
	ti := Cat(PackU(uint64(len(info))), info)
	size := uint32(len(body) + len(ti) + 8 + 3)
	return Cat([]byte{Object}, LE32(size), []byte{1, 0, 0, 0}, ti, []byte{ScopeBegin}, body, []byte{ScopeEnd, ObjectEnd})
}

// Units converts a code point to UTF-16.
func Units(r rune) []uint16 {
	if r >= 0x10000 {
		r -= 0x10000
		return []uint16{0xd800 + uint16(r>>10), 0xdc00 + uint16(r&0x3ff)}
	}
	return []uint16{uint16(r)}
}

// Utf8 converts a code point to UTF-8.
func Utf8(r rune) []byte {
	switch {
	case r < 0x80:
		return []byte{byte(r)}
	case r < 0x800:
		return []byte{0xc0 | byte(r>>6), 0x80 | byte(r)&0x3f}
	case r < 0x10000:
		return []byte{0xe0 | byte(r>>12), 0x80 | byte(r>>6)&0x3f, 0x80 | byte(r)&0x3f}
	}
	return []byte{0xf0 | byte(r>>18), 0x80 | byte(r>>12)&0x3f, 0x80 | byte(r>>6)&0x3f, 0x80 | byte(r)&0x3f}
}

// AnyRune is any Unicode scalar value.
func AnyRune(name string) rune {
	r := sym.U32(name)
	sym.Assume(sym.Or(r < 0xd800, sym.And(r >= 0xe000, r <= 0x10ffff)))
	return rune(r)
}

// RuneOf is any Unicode scalar value whose UTF-8 form has w bytes (1..4), given
// as the UTF-16 units and the UTF-8 bytes. Both are built from the same bit
// groups, which keeps solver queries on hashes of them small.
func RuneOf(name string, w int) (units []uint16, u8 []byte) {
	a := uint32(sym.U8(name)) & 0x3f
	switch w {
	case 1:
		c := sym.U8(name + ".c")
		sym.Assume(c < 0x80)
		return []uint16{uint16(c)}, []byte{c}
	case 2:
		b := uint32(sym.U8(name+".b")) & 0x1f
		sym.Assume(b >= 2)
		return []uint16{uint16(b<<6 | a)}, []byte{0xc0 | byte(b), 0x80 | byte(a)}
	case 3:
		b, c := uint32(sym.U8(name+".b"))&0x3f, uint32(sym.U8(name+".c"))&0x0f
		sym.Assume(sym.Or(c > 0, b >= 0x20))
		sym.Assume(sym.Or(c != 0x0d, b < 0x20))
		return []uint16{uint16(c<<12 | b<<6 | a)}, []byte{0xe0 | byte(c), 0x80 | byte(b), 0x80 | byte(a)}
	}
	b, c, d := uint32(sym.U8(name+".b"))&0x3f, uint32(sym.U8(name+".c"))&0x3f, uint32(sym.U8(name+".d"))&0x07
	sym.Assume(sym.Or(sym.And(d == 0, c >= 0x10), sym.And(d > 0, d < 4), sym.And(d == 4, c < 0x10)))
	r := d<<18 | c<<12 | b<<6 | a
	r0 := r - 0x10000
	return []uint16{0xd800 + uint16(r0>>10), 0xdc00 + uint16(r0&0x3ff)}, []byte{0xf0 | byte(d), 0x80 | byte(c), 0x80 | byte(b), 0x80 | byte(a)}
}
