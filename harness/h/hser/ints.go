// Package hser checks the serialization package.
package hser

import (
	"github.com/tg123/phabrik/serialization"
	"github.com/tg123/phabrik/zzverif/href"
	"github.com/tg123/phabrik/zzverif/sym"
)

type u16T struct {
	A uint16
	B uint8
}
type u32T struct {
	A uint32
	B uint8
}
type u64T struct {
	A uint64
	B uint8
}
type i16T struct {
	A int16
	B uint8
}
type i32T struct {
	A int32
	B uint8
}
type i64T struct {
	A int64
	B uint8
}

func encU(width int, v uint64, b byte) ([]byte, error) {
	switch width {
	case 2:
		return serialization.Marshal(&u16T{uint16(v), b})
	case 4:
		return serialization.Marshal(&u32T{uint32(v), b})
	}
	return serialization.Marshal(&u64T{v, b})
}

func encS(width int, v int64, b byte) ([]byte, error) {
	switch width {
	case 2:
		return serialization.Marshal(&i16T{int16(v), b})
	case 4:
		return serialization.Marshal(&i32T{int32(v), b})
	}
	return serialization.Marshal(&i64T{v, b})
}

func decU(width int, data []byte) (uint64, byte, error) {
	switch width {
	case 2:
		var x u16T
		err := serialization.Unmarshal(data, &x)
		return uint64(x.A), x.B, err
	case 4:
		var x u32T
		err := serialization.Unmarshal(data, &x)
		return uint64(x.A), x.B, err
	}
	var x u64T
	err := serialization.Unmarshal(data, &x)
	return x.A, x.B, err
}

func decS(width int, data []byte) (int64, byte, error) {
	switch width {
	case 2:
		var x i16T
		err := serialization.Unmarshal(data, &x)
		return int64(x.A), x.B, err
	case 4:
		var x i32T
		err := serialization.Unmarshal(data, &x)
		return int64(x.A), x.B, err
	}
	var x i64T
	err := serialization.Unmarshal(data, &x)
	return x.A, x.B, err
}

var widths = []int{2, 4, 8}
var umeta = []byte{href.UShort, href.UInt32, href.UInt64}
var smeta = []byte{href.Short, href.Int32, href.Int64}

func maxGroups(width int) int { return (width*8 + 6) / 7 }

// EncodeUnsigned: minimal form, and it decodes back.
//
//verif:harness prop=C02,C01,C05 budget=60 bound="one unsigned field of width 16/32/64, every value, followed by an arbitrary byte field"
func EncodeUnsigned() {
	k := sym.Choose("width", 3)
	w := widths[k]
	v := sym.U64("v")
	if w < 8 {
		sym.Assume(v < 1<<uint(8*w))
	}
	b := sym.U8("b")
	data, err := encU(w, v, b)
	sym.Assert(err == nil, "encoding failed")
	sym.Assert(sym.BytesEq(data, href.Obj(href.U(umeta[k], v), href.B(href.UChar, b))), "bytes differ from the wire layout")
	got, gb, err := decU(w, data)
	sym.Assert(err == nil, "decoding what was encoded failed")
	sym.Assert(got == v, "value changed")
	sym.Assert(gb == b, "the next field changed")
}

//verif:harness prop=C02,C01,C05 budget=60 bound="one signed field of width 16/32/64, every value, followed by an arbitrary byte field"
func EncodeSigned() {
	k := sym.Choose("width", 3)
	w := widths[k]
	v := sym.I64("v")
	if w < 8 {
		sym.Assume(sym.And(v < 1<<uint(8*w-1), v >= -(1<<uint(8*w-1))))
	}
	b := sym.U8("b")
	data, err := encS(w, v, b)
	sym.Assert(err == nil, "encoding failed")
	sym.Assert(sym.BytesEq(data, href.Obj(href.S(smeta[k], v), href.B(href.UChar, b))), "bytes differ from the wire layout")
	got, gb, err := decS(w, data)
	sym.Assert(err == nil, "decoding what was encoded failed")
	sym.Assert(got == v, "value changed")
	sym.Assert(gb == b, "the next field changed")
}

// anyPacked returns n bytes of a compressed integer with arbitrary groups.
func anyPacked(n int) []byte {
	p := sym.Bytes("groups", n)
	for i := range p {
		if i < n-1 {
			p[i] |= 0x80
		} else {
			p[i] &= 0x7f
		}
	}
	return p
}

// denotes is the number a packed form denotes: two's complement with the sign
// in bit 6 of the first byte.
func denotes(p []byte) uint64 {
	v := sym.IteU64(p[0]&0x40 != 0, ^uint64(0), 0)
	for _, b := range p {
		v = v<<7 | uint64(b&0x7f)
	}
	return v
}

//verif:harness prop=C05 budget=90 bound="unsigned 16/32/64-bit field, every packed form of 1..max+2 bytes, any following byte field"
func DecodeUnsigned() {
	k := sym.Choose("width", 3)
	w := widths[k]
	n := 1 + sym.Choose("n", maxGroups(w)+2)
	p := anyPacked(n)
	b := sym.U8("b")
	data := href.Obj([]byte{umeta[k]}, p, []byte{href.UChar, b})
	got, gb, err := decU(w, data)
	if n > maxGroups(w) {
		sym.Assert(err != nil, "an overlong packed integer must be rejected")
		return
	}
	v := denotes(p)
	if w < 8 {
		// a packed form can hold more bits than the field: only numbers that fit
		sym.Assume(v < 1<<uint(8*w))
	} else if n == 10 {
		sym.Assume(p[0]&0x7f < 2)
	} else {
		sym.Assume(p[0]&0x40 == 0)
	}
	sym.Assert(err == nil, "a packed integer that fits must be accepted")
	sym.Assert(got == v, "wrong value")
	sym.Assert(gb == b, "decoding did not continue right after the integer")
}

//verif:harness prop=C05 budget=90 bound="signed 16/32/64-bit field, every packed form of 1..max+2 bytes, any following byte field"
func DecodeSigned() {
	k := sym.Choose("width", 3)
	w := widths[k]
	n := 1 + sym.Choose("n", maxGroups(w)+2)
	p := anyPacked(n)
	b := sym.U8("b")
	data := href.Obj([]byte{smeta[k]}, p, []byte{href.UChar, b})
	got, gb, err := decS(w, data)
	if n > maxGroups(w) {
		sym.Assert(err != nil, "an overlong packed integer must be rejected")
		return
	}
	v := int64(denotes(p))
	if w < 8 {
		sym.Assume(sym.And(v < 1<<uint(8*w-1), v >= -(1<<uint(8*w-1))))
	} else if n == 10 {
		// bits 63..69 must agree
		g := p[0] & 0x7f
		sym.Assume(sym.Or(g == 0x7f, g == 0))
		sym.Assume(sym.Or(sym.And(g == 0x7f, v < 0), sym.And(g == 0, v >= 0)))
	}
	sym.Assert(err == nil, "a packed integer that fits must be accepted")
	sym.Assert(got == v, "wrong value")
	sym.Assert(gb == b, "decoding did not continue right after the integer")
}

//verif:harness prop=C05 budget=60 bound="16/32/64-bit signed and unsigned fields, any groups, input cut at every byte inside the integer"
func Truncated() {
	k := sym.Choose("width", 3)
	signed := sym.Choose("signed", 2) == 1
	w := widths[k]
	n := sym.Choose("n", maxGroups(w)) // bytes present, all announce more
	p := sym.Bytes("groups", n)
	for i := range p {
		p[i] |= 0x80
	}
	meta := umeta[k]
	if signed {
		meta = smeta[k]
	}
	full := href.Obj([]byte{meta}, p)
	data := full[:len(full)-2]
	var err error
	if signed {
		_, _, err = decS(w, data)
	} else {
		_, _, err = decU(w, data)
	}
	sym.Assert(err != nil, "a truncated packed integer must be rejected")
}

// rawInt decodes itself from one packed 32-bit integer.
type rawInt struct {
	v     uint32
	err   error
	asked bool
}

func (r *rawInt) Marshal(e serialization.Encoder) error { return nil }

func (r *rawInt) Unmarshal(meta serialization.FabricSerializationType, d serialization.Decoder) error {
	r.asked = true
	r.v, r.err = d.ReadCompressedUInt32()
	return nil
}

//verif:harness prop=C05 budget=60 bound="a packed integer of 1 to 5 groups a custom decoder reads, whole or cut at every byte inside it, at the end of the input"
func CustomPacked() {
	n := 1 + sym.Choose("n", 5)
	p := anyPacked(n)
	cut := sym.Choose("cut", n+1)
	data := href.Obj([]byte{href.UChar | href.Array}, p[:cut])
	var x struct{ R rawInt }
	serialization.Unmarshal(data[:len(data)-2], &x)
	sym.Assert(x.R.asked, "a custom decoder is not used")
	if cut < n {
		sym.Assert(x.R.err != nil, "a truncated packed integer must be rejected")
	} else {
		sym.Assert(x.R.err == nil, "a packed integer is rejected")
		sym.Assert(sym.Implies(denotes(p) < 1<<32, uint64(x.R.v) == denotes(p)), "a packed integer decodes to the wrong value")
	}
}

//verif:harness prop=C05 budget=90 bound="string and slice counts: every packed count form up to 6 bytes, the announced elements cannot be present unless the count is small"
func Counts() {
	n := 1 + sym.Choose("n", 6)
	p := anyPacked(n)
	data := href.Obj([]byte{href.Array | href.WString}, p, href.LE16(0x41), href.LE16(0x42), []byte{href.UChar, 7})
	var x struct {
		S string
		B uint8
	}
	err := serialization.Unmarshal(data, &x)
	v := denotes(p)
	if n > 5 {
		sym.Assert(err != nil, "an overlong count must be rejected")
		return
	}
	if sym.And(v == 2, err == nil) {
		sym.Assert(x.S == "AB", "the counted characters were not read")
		sym.Assert(x.B == 7, "decoding did not continue right after the string")
	}
	sym.Assert(sym.Implies(v == 2, err == nil), "a count that matches must be accepted")
	sym.Assert(sym.Implies(sym.And(v > 4, v < 1<<31), err != nil), "a count larger than the data must be rejected")
}
