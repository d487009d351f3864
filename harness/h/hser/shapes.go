package hser

import (
	"math"

	"github.com/tg123/phabrik/serialization"
	"github.com/tg123/phabrik/zzverif/href"
	"github.com/tg123/phabrik/zzverif/sym"
)

// roundTrip encodes v, compares with the expected bytes (if any) and decodes
// into w; it asserts that the result equals v.
func roundTrip(v, w interface{}, want []byte) []byte {
	data, err := serialization.Marshal(v)
	sym.Assert(err == nil, "encoding failed")
	if want != nil {
		sym.Assert(sym.BytesEq(data, want), "bytes differ from the wire layout")
	}
	err = serialization.Unmarshal(data, w)
	sym.Assert(err == nil, "decoding what was encoded failed")
	sym.Assert(sym.DeepEq(v, w), "the decoded value differs")
	return data
}

type smallT struct {
	Flag bool
	A    int8
	B    uint8
	Last bool
}

//verif:harness prop=C01,C02 budget=60 bound="bool, int8 and uint8 fields, every value"
func Small() {
	v := smallT{sym.Bool("flag"), sym.I8("a"), sym.U8("b"), sym.Bool("last")}
	roundTrip(&v, &smallT{Flag: true, A: 5, B: 6, Last: true},
		href.Obj(href.BoolV(v.Flag), href.B(href.Char, byte(v.A)), href.B(href.UChar, v.B), href.BoolV(v.Last)))
}

type floatT struct {
	D float64
	F float32
	N uint8
}

//verif:harness prop=C01,C02 budget=60 bound="a double and a single, every non-NaN value"
func Floats() {
	db, fb := sym.U64("d"), sym.U32("f")
	sym.Assume(db&0x7fffffffffffffff <= 0x7ff0000000000000)
	sym.Assume(fb&0x7fffffff <= 0x7f800000)
	v := floatT{math.Float64frombits(db), math.Float32frombits(fb), 9}
	data, err := serialization.Marshal(&v)
	sym.Assert(err == nil, "encoding failed")
	w := floatT{D: 1, F: 1}
	err = serialization.Unmarshal(data, &w)
	sym.Assert(err == nil, "decoding what was encoded failed")
	gd, gf := math.Float64bits(w.D), math.Float32bits(w.F)
	// negative zero may come back as zero: they are equal numbers
	sym.Assert(sym.Or(gd == db, sym.And(db<<1 == 0, gd<<1 == 0)), "double changed")
	sym.Assert(sym.Or(gf == fb, sym.And(fb<<1 == 0, gf<<1 == 0)), "single changed")
	sym.Assert(w.N == 9, "the next field changed")
	if db != 1<<63 && fb != 1<<31 {
		fd := math.Float64bits(float64(math.Float32frombits(fb)))
		want := href.Obj(href.F64(db == 0, db), href.F64(fb == 0, fd), href.B(href.UChar, 9))
		sym.Assert(sym.BytesEq(data, want), "bytes differ from the wire layout")
	}
}

//verif:harness prop=C01 budget=60 bound="a double slice of up to 2 elements, every non-NaN value"
func FloatSlice() {
	type T struct{ D []float64 }
	n := sym.Choose("n", 3)
	v := T{}
	for i := 0; i < n; i++ {
		b := sym.U64("d")
		sym.Assume(b&0x7fffffffffffffff <= 0x7ff0000000000000)
		sym.Assume(b != 1<<63)
		v.D = append(v.D, math.Float64frombits(b))
	}
	roundTrip(&v, &T{D: []float64{7}}, nil)
}

type strT struct {
	S string
	N uint8
}

//verif:harness prop=C01,C02 budget=90 tbudget=400 bound="strings of up to 3 (thorough 4) arbitrary Unicode scalar values"
func Strings() {
	n := sym.Choose("n", sym.Tier(4, 5))
	var rs []rune
	var units []uint16
	var u8 []byte
	for i := 0; i < n; i++ {
		r := href.AnyRune("r")
		rs = append(rs, r)
		units = append(units, href.Units(r)...)
		u8 = append(u8, href.Utf8(r)...)
	}
	v := strT{string(u8), sym.U8("n8")}
	roundTrip(&v, &strT{S: "old", N: 1}, href.Obj(href.Str16(units), href.B(href.UChar, v.N)))
}

//verif:harness prop=C01,C02 budget=60 bound="ASCII strings of length 0..3 and 60..66, 126..130 with arbitrary first and last characters (length prefix of one and two bytes)"
func LongStrings() {
	lens := []int{0, 1, 2, 3, 60, 62, 63, 64, 65, 126, 127, 128, 129}
	n := lens[sym.Choose("len", len(lens))]
	b := make([]byte, n)
	for i := range b {
		b[i] = 'a' + byte(i%26)
	}
	if n > 0 {
		x, y := sym.U8("first"), sym.U8("last")
		sym.Assume(sym.And(x < 0x80, y < 0x80))
		b[0], b[n-1] = x, y
	}
	v := strT{string(b), 3}
	roundTrip(&v, &strT{}, href.Obj(href.Ascii(string(b)), href.B(href.UChar, 3)))
}

type guidT struct {
	G serialization.GUID
	N uint16
}

func anyGUID(name string) serialization.GUID {
	g := serialization.GUID{Data1: sym.U32(name + ".1"), Data2: sym.U16(name + ".2"), Data3: sym.U16(name + ".3")}
	copy(g.Data4[:], sym.Bytes(name+".4", 8))
	return g
}

//verif:harness prop=C01,C02 budget=60 bound="a GUID field, every value"
func GuidField() {
	v := guidT{anyGUID("g"), sym.U16("n")}
	roundTrip(&v, &guidT{G: serialization.GUID{Data1: 77, Data4: [8]byte{1}}, N: 5},
		href.Obj(href.GuidV(v.G.Data1, v.G.Data2, v.G.Data3, v.G.Data4), href.U(href.UShort, uint64(v.N))))
}

//verif:harness prop=C01,C02 budget=60 bound="a slice of up to 2 GUIDs, every value"
func GuidSlice() {
	type T struct {
		G []serialization.GUID
		N uint8
	}
	n := sym.Choose("n", 3)
	v := T{N: 4}
	var enc [][]byte
	for i := 0; i < n; i++ {
		g := anyGUID("g")
		v.G = append(v.G, g)
		enc = append(enc, href.GuidV(g.Data1, g.Data2, g.Data3, g.Data4))
	}
	var f []byte
	if n == 0 {
		f = []byte{href.Empty | href.Array | href.Object}
	} else {
		f = href.Cat([]byte{href.Array | href.Object, byte(n)}, href.Cat(enc...))
	}
	roundTrip(&v, &T{}, href.Obj(f, href.B(href.UChar, 4)))
}

type innerT struct {
	X uint16
	Y bool
}

type Emb struct {
	P uint8
	Q int16
}

type nestT struct {
	A  uint8
	In innerT
	Emb
	Ptr   *innerT
	Empty struct{}
	Z     uint8
}

//verif:harness prop=C01,C02 budget=90 bound="nested, embedded, pointed-to (nil or not) and empty structs with arbitrary 8- and 16-bit values"
func Nested() {
	v := nestT{A: sym.U8("a"), In: innerT{sym.U16("x"), sym.Bool("y")}, Emb: Emb{sym.U8("p"), sym.I16("q")}, Z: sym.U8("z")}
	ptr := []byte{href.Empty | href.Pointer}
	if sym.Bool("ptr") {
		v.Ptr = &innerT{sym.U16("px"), sym.Bool("py")}
		ptr = href.Cat([]byte{href.Pointer}, href.Obj(href.U(href.UShort, uint64(v.Ptr.X)), href.BoolV(v.Ptr.Y)))
	}
	roundTrip(&v, &nestT{Ptr: &innerT{X: 3}, Z: 1},
		href.Obj(href.B(href.UChar, v.A),
			href.Obj(href.U(href.UShort, uint64(v.In.X)), href.BoolV(v.In.Y)),
			href.B(href.UChar, v.P), href.S(href.Short, int64(v.Q)),
			ptr, href.Obj(), href.B(href.UChar, v.Z)))
}

type ptrT struct {
	I *uint32
	S *string
	G *serialization.GUID
	N uint8
}

//verif:harness prop=C01,C02 budget=90 bound="pointers to a 32-bit integer, a short string and a GUID, nil or not, any value including zero"
func Pointers() {
	v := ptrT{N: 1}
	e := [][]byte{{href.Empty | href.Pointer}, {href.Empty | href.Pointer}, {href.Empty | href.Pointer}}
	switch sym.Choose("which", 4) {
	case 1:
		i := sym.U32("i")
		v.I = &i
		e[0] = href.Cat([]byte{href.Pointer}, href.U(href.UInt32, uint64(i)))
	case 2:
		s := ""
		var u []uint16
		if sym.Bool("nonempty") {
			r := href.AnyRune("r")
			s = string(href.Utf8(r))
			u = href.Units(r)
		}
		v.S = &s
		e[1] = href.Cat([]byte{href.Pointer}, href.Str16(u))
	case 3:
		g := anyGUID("g")
		v.G = &g
		e[2] = href.Cat([]byte{href.Pointer}, href.GuidV(g.Data1, g.Data2, g.Data3, g.Data4))
	}
	roundTrip(&v, &ptrT{}, href.Obj(e[0], e[1], e[2], href.B(href.UChar, 1)))
}

//verif:harness prop=C01,C02 budget=90 bound="slices (nil, empty, 1..3 elements) of every scalar kind with arbitrary values"
func ScalarSlices() {
	n := sym.Choose("n", 4)
	tail := href.B(href.UChar, 9)
	var body []byte
	list := func(meta byte) []byte {
		if n == 0 {
			return []byte{href.Empty | href.Array | meta}
		}
		return href.Cat([]byte{href.Array | meta, byte(n)}, body)
	}
	empty := n == 0 && sym.Bool("empty") // non-nil empty
	switch sym.Choose("kind", 9) {
	case 0:
		type T struct {
			V []bool
			N uint8
		}
		v := T{N: 9}
		if empty {
			v.V = []bool{}
		}
		for i := 0; i < n; i++ {
			x := sym.Bool("x")
			v.V = append(v.V, x)
			body = append(body, href.BoolV(x)...)
		}
		roundTrip(&v, &T{V: []bool{true}}, href.Obj(list(href.Bool), tail))
	case 1:
		type T struct {
			V []uint8
			N uint8
		}
		v := T{N: 9}
		if empty {
			v.V = []uint8{}
		}
		for i := 0; i < n; i++ {
			x := sym.U8("x")
			v.V = append(v.V, x)
			body = append(body, href.B(href.UChar, x)...)
		}
		roundTrip(&v, &T{V: []uint8{1}}, href.Obj(list(href.UChar), tail))
	case 2:
		type T struct {
			V []int8
			N uint8
		}
		v := T{N: 9}
		for i := 0; i < n; i++ {
			x := sym.I8("x")
			v.V = append(v.V, x)
			body = append(body, href.B(href.Char, byte(x))...)
		}
		roundTrip(&v, &T{}, href.Obj(list(href.Char), tail))
	case 3:
		type T struct {
			V []uint16
			N uint8
		}
		v := T{N: 9}
		for i := 0; i < n; i++ {
			x := sym.U16("x")
			v.V = append(v.V, x)
			body = append(body, href.U(href.UShort, uint64(x))...)
		}
		roundTrip(&v, &T{}, href.Obj(list(href.UShort), tail))
	case 4:
		type T struct {
			V []int16
			N uint8
		}
		v := T{N: 9}
		for i := 0; i < n; i++ {
			x := sym.I16("x")
			v.V = append(v.V, x)
			body = append(body, href.S(href.Short, int64(x))...)
		}
		roundTrip(&v, &T{}, href.Obj(list(href.Short), tail))
	case 5:
		type T struct {
			V []uint32
			N uint8
		}
		v := T{N: 9}
		for i := 0; i < n; i++ {
			x := sym.U32("x")
			v.V = append(v.V, x)
			body = append(body, href.U(href.UInt32, uint64(x))...)
		}
		roundTrip(&v, &T{}, href.Obj(list(href.UInt32), tail))
	case 6:
		type T struct {
			V []int32
			N uint8
		}
		v := T{N: 9}
		for i := 0; i < n; i++ {
			x := sym.I32("x")
			v.V = append(v.V, x)
			body = append(body, href.S(href.Int32, int64(x))...)
		}
		roundTrip(&v, &T{}, href.Obj(list(href.Int32), tail))
	case 7:
		type T struct {
			V []uint64
			N uint8
		}
		v := T{N: 9}
		m := n
		if m > 2 {
			m = 2
			sym.Assume(false)
		}
		for i := 0; i < m; i++ {
			x := sym.U64("x")
			v.V = append(v.V, x)
			body = append(body, href.U(href.UInt64, x)...)
		}
		roundTrip(&v, &T{}, href.Obj(list(href.UInt64), tail))
	case 8:
		type T struct {
			V []int64
			N uint8
		}
		v := T{N: 9}
		if n > 2 {
			sym.Assume(false)
		}
		for i := 0; i < n; i++ {
			x := sym.I64("x")
			v.V = append(v.V, x)
			body = append(body, href.S(href.Int64, x)...)
		}
		roundTrip(&v, &T{}, href.Obj(list(href.Int64), tail))
	}
}

//verif:harness prop=C01,C02 budget=90 bound="slices of up to 3 strings (0..1 arbitrary code points), 2 structs, 2 struct pointers, 2 integer pointers"
func CompoundSlices() {
	tail := href.B(href.UChar, 9)
	switch sym.Choose("kind", 4) {
	case 0:
		type T struct {
			V []string
			N uint8
		}
		n := sym.Choose("n", 4)
		v := T{N: 9}
		var body []byte
		for i := 0; i < n; i++ {
			if sym.Bool("nonempty") {
				r := href.AnyRune("r")
				v.V = append(v.V, string(href.Utf8(r)))
				body = append(body, href.Str16(href.Units(r))...)
			} else {
				v.V = append(v.V, "")
				body = append(body, href.Str16(nil)...)
			}
		}
		f := []byte{href.Empty | href.UInt32}
		if n > 0 {
			f = href.Cat([]byte{href.UInt32, byte(n)}, body)
		}
		roundTrip(&v, &T{V: []string{"x"}}, href.Obj(f, tail))
	case 1:
		type T struct {
			V []innerT
			N uint8
		}
		n := sym.Choose("n", 3)
		v := T{N: 9}
		var body []byte
		for i := 0; i < n; i++ {
			x := innerT{sym.U16("x"), sym.Bool("y")}
			v.V = append(v.V, x)
			body = append(body, href.Obj(href.U(href.UShort, uint64(x.X)), href.BoolV(x.Y))...)
		}
		f := []byte{href.Empty | href.Array | href.Object}
		if n > 0 {
			f = href.Cat([]byte{href.Array | href.Object, byte(n)}, body)
		}
		roundTrip(&v, &T{V: []innerT{{X: 1}}}, href.Obj(f, tail))
	case 2:
		type T struct {
			V []*innerT
			N uint8
		}
		n := sym.Choose("n", 3)
		v := T{N: 9}
		var body []byte
		for i := 0; i < n; i++ {
			if sym.Bool("nil") {
				v.V = append(v.V, nil)
				body = append(body, href.Empty|href.Pointer)
			} else {
				x := innerT{sym.U16("x"), sym.Bool("y")}
				v.V = append(v.V, &x)
				body = append(body, href.Pointer)
				body = append(body, href.Obj(href.U(href.UShort, uint64(x.X)), href.BoolV(x.Y))...)
			}
		}
		f := []byte{href.Empty | href.UInt32}
		if n > 0 {
			f = href.Cat([]byte{href.UInt32, byte(n)}, body)
		}
		roundTrip(&v, &T{}, href.Obj(f, tail))
	case 3:
		type T struct {
			V []*uint16
			N uint8
		}
		n := sym.Choose("n", 3)
		v := T{N: 9}
		var body []byte
		for i := 0; i < n; i++ {
			x := sym.U16("x")
			v.V = append(v.V, &x)
			body = append(body, href.Pointer)
			body = append(body, href.U(href.UShort, uint64(x))...)
		}
		f := []byte{href.Empty | href.UInt32}
		if n > 0 {
			f = href.Cat([]byte{href.UInt32, byte(n)}, body)
		}
		roundTrip(&v, &T{}, href.Obj(f, tail))
	}
}

//verif:harness prop=C01,C02 budget=90 bound="maps with up to 2 entries (arbitrary 16-bit or one-character keys, arbitrary values), any iteration order"
func Maps() {
	sym.MapOrder(true)
	tail := href.B(href.UChar, 9)
	n := sym.Choose("n", 3)
	empty := []byte{href.Empty | href.Array | href.Object}
	if sym.Choose("kind", 2) == 0 {
		type T struct {
			M map[uint16]innerT
			N uint8
		}
		v := T{N: 9}
		var es [][]byte
		if sym.Bool("nonnil") {
			v.M = map[uint16]innerT{}
		}
		if n > 0 {
			v.M = map[uint16]innerT{}
		}
		for i := 0; i < n; i++ {
			k, x := sym.U16("k"), innerT{uint16(sym.U8("x")), sym.Bool("y")}
			if _, dup := v.M[k]; dup {
				sym.Assume(false)
			}
			v.M[k] = x
			es = append(es, href.Obj(href.U(href.UShort, uint64(k)), href.Obj(href.U(href.UShort, uint64(x.X)), href.BoolV(x.Y))))
		}
		data := roundTrip(&v, &T{M: map[uint16]innerT{3: {}}}, nil)
		checkMapBytes(data, empty, es, tail)
		return
	}
	type T struct {
		M map[string]uint16
		N uint8
	}
	v := T{N: 9}
	var es [][]byte
	if n > 0 {
		v.M = map[string]uint16{}
	}
	for i := 0; i < n; i++ {
		c := sym.U8("k")
		sym.Assume(c < 0x80)
		k, x := string([]byte{c}), sym.U16("x")
		if _, dup := v.M[k]; dup {
			sym.Assume(false)
		}
		v.M[k] = x
		es = append(es, href.Obj(href.Ascii(k), href.U(href.UShort, uint64(x))))
	}
	data := roundTrip(&v, &T{}, nil)
	checkMapBytes(data, empty, es, tail)
}

func checkMapBytes(data, empty []byte, es [][]byte, tail []byte) {
	switch len(es) {
	case 0:
		sym.Assert(sym.BytesEq(data, href.Obj(empty, tail)), "bytes differ from the wire layout")
	case 1:
		sym.Assert(sym.BytesEq(data, href.Obj([]byte{href.Array | href.Object, 1}, es[0], tail)), "bytes differ from the wire layout")
	case 2:
		a := href.Obj([]byte{href.Array | href.Object, 2}, es[0], es[1], tail)
		b := href.Obj([]byte{href.Array | href.Object, 2}, es[1], es[0], tail)
		sym.Assert(sym.Or(sym.BytesEq(data, a), sym.BytesEq(data, b)), "bytes differ from the wire layout")
	}
}

type deepT struct {
	A uint16
	B struct {
		C []struct {
			D *struct{ E map[uint8]string }
			F []string
		}
		G serialization.GUID
	}
	H bool
}

//verif:harness prop=C01,C02 budget=90 bound="one deep shape: slice of structs holding a pointer to a struct with a map, string slices, a GUID; arbitrary leaf values"
func Deep() {
	var v deepT
	v.A = sym.U16("a")
	v.H = sym.Bool("h")
	var cs [][]byte
	n := sym.Choose("n", 3)
	for i := 0; i < n; i++ {
		var c struct {
			D *struct{ E map[uint8]string }
			F []string
		}
		d := []byte{href.Empty | href.Pointer}
		if i == 0 && sym.Bool("hasD") {
			k := sym.U8("key")
			ch := sym.U8("ch")
			sym.Assume(ch < 0x80)
			s := string([]byte{ch})
			c.D = &struct{ E map[uint8]string }{map[uint8]string{k: s}}
			d = href.Cat([]byte{href.Pointer}, href.Obj([]byte{href.Array | href.Object, 1}, href.Obj(href.B(href.UChar, k), href.Ascii(s))))
		}
		f := []byte{href.Empty | href.UInt32}
		if i == 1 {
			c.F = []string{"ab", ""}
			f = href.Cat([]byte{href.UInt32, 2}, href.Ascii("ab"), href.Ascii(""))
		}
		v.B.C = append(v.B.C, c)
		cs = append(cs, href.Obj(d, f))
	}
	v.B.G = serialization.GUID{Data1: sym.U32("g")}
	arr := []byte{href.Empty | href.Array | href.Object}
	if n > 0 {
		arr = href.Cat([]byte{href.Array | href.Object, byte(n)}, href.Cat(cs...))
	}
	roundTrip(&v, &deepT{}, href.Obj(href.U(href.UShort, uint64(v.A)),
		href.Obj(arr, href.GuidV(v.B.G.Data1, 0, 0, [8]byte{})), href.BoolV(v.H)))
}

type hidT struct {
	A uint8
	h uint16
	B uint8
}

//verif:harness prop=C01,C02 budget=30 bound="a struct with an unexported field between arbitrary byte fields"
func Unexported() {
	v := hidT{A: sym.U8("a"), h: sym.U16("h"), B: sym.U8("b")}
	data, err := serialization.Marshal(&v)
	sym.Assert(err == nil, "encoding failed")
	sym.Assert(sym.BytesEq(data, href.Obj(href.B(href.UChar, v.A), href.B(href.UChar, v.B))), "bytes differ from the wire layout")
	w := hidT{h: 7}
	err = serialization.Unmarshal(data, &w)
	sym.Assert(err == nil, "decoding what was encoded failed")
	sym.Assert(sym.And(w.A == v.A, w.B == v.B, w.h == 7), "wrong fields")
}

//verif:harness prop=C01,C02 budget=60 bound="slices of 62..66 and 126..130 byte elements (count prefix of one and two bytes), objects above 255 and 65535 bytes"
func ManyElements() {
	type T struct {
		V []uint8
		N uint8
	}
	lens := []int{62, 63, 64, 65, 126, 127, 128, 129, 300, 33000}
	n := lens[sym.Choose("len", len(lens))]
	v := T{N: 9, V: make([]uint8, n)}
	var body []byte
	for i := range v.V {
		v.V[i] = byte(i)*2 + 1
	}
	v.V[0], v.V[n-1] = sym.U8("first"), sym.U8("last")
	for _, x := range v.V {
		body = append(body, href.B(href.UChar, x)...)
	}
	f := href.Cat([]byte{href.Array | href.UChar}, href.PackU(uint64(n)), body)
	roundTrip(&v, &T{}, href.Obj(f, href.B(href.UChar, 9)))
}

//verif:harness prop=C01,C02 budget=30 bound="raw byte bodies of up to 8 arbitrary bytes; non-pointers and nil are refused"
func RawBody() {
	b := sym.Bytes("b", sym.Choose("n", 9))
	data, err := serialization.Marshal(b)
	sym.Assert(err == nil, "a raw body must be accepted")
	sym.Assert(sym.BytesEq(data, b), "a raw body must be passed through")
	_, err = serialization.Marshal(smallT{})
	sym.Assert(err != nil, "a non-pointer must be refused")
	_, err = serialization.Marshal((*smallT)(nil))
	sym.Assert(err != nil, "a nil pointer must be refused")
	sym.Assert(serialization.Unmarshal([]byte{0}, smallT{}) != nil, "decoding into a non-pointer must fail")
	sym.Assert(serialization.Unmarshal(nil, &smallT{}) != nil, "decoding nothing must fail")
}
