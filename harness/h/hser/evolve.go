package hser

import (
	"github.com/tg123/phabrik/serialization"
	"github.com/tg123/phabrik/zzverif/href"
	"github.com/tg123/phabrik/zzverif/sym"
)

type inOld struct {
	A uint32
	S string
}

type inNew struct {
	A uint32
	S string
	B uint16
	G serialization.GUID
	L []uint16
	N smallT
}

type outOld struct {
	H  uint8
	In inOld
	T  uint16
}

type outNew struct {
	H  uint8
	In inNew
	T  uint16
}

// mid is any 16-bit value from 0x100 to 0x1ff: its packed form has one length.
func mid(name string) uint16 { return 0x100 | uint16(sym.U8(name)) }

func str1(name string) string {
	n := sym.Choose(name+"len", 3)
	b := sym.Bytes(name, n)
	for _, c := range b {
		sym.Assume(c < 0x80)
	}
	return string(b)
}

// A newer writer's extra bytes are arbitrary.
//
//verif:harness prop=C04 budget=60 tbudget=240 bound="an inner object with uint32 and string (up to 2 ASCII chars) of any value, then 0..6 (thorough 10) arbitrary extra bytes; read as a field, in a slice of two, through a pointer, in a map, nested two deep, at top level"
func ExtraSkipped() {
	a, s, h, tail := sym.U32("a"), str1("s"), sym.U8("h"), sym.U16("t")
	extra := sym.Bytes("extra", sym.Choose("n", sym.Tier(7, 11)))
	obj := href.Obj(href.U(href.UInt32, uint64(a)), href.Ascii(s), extra)
	H, T := href.B(href.UChar, h), href.U(href.UShort, uint64(tail))
	chk := func(err error, in inOld, gh uint8, gt uint16) {
		sym.Assert(err == nil, "an object with extra trailing fields was rejected")
		sym.Assert(in.A == a && in.S == s, "a leading field is wrong")
		sym.Assert(gh == h && gt == tail, "data around the object is wrong")
	}
	switch sym.Choose("shape", 6) {
	case 0:
		w := outOld{1, inOld{2, "x"}, 3}
		err := serialization.Unmarshal(href.Obj(H, obj, T), &w)
		chk(err, w.In, w.H, w.T)
	case 1:
		var w struct {
			H uint8
			L []inOld
			T uint16
		}
		obj2 := href.Obj(href.U(href.UInt32, uint64(a)), href.Ascii(s))
		err := serialization.Unmarshal(href.Obj(H, []byte{href.Object | href.Array, 2}, obj, obj2, T), &w)
		sym.Assert(err == nil && len(w.L) == 2, "a slice of objects with extra trailing fields was rejected")
		chk(err, w.L[0], w.H, w.T)
		chk(err, w.L[1], w.H, w.T)
	case 2:
		var w struct {
			H uint8
			P *inOld
			T uint16
		}
		err := serialization.Unmarshal(href.Obj(H, []byte{href.Pointer}, obj, T), &w)
		sym.Assert(err == nil && w.P != nil, "a pointer to an object with extra trailing fields was rejected")
		chk(err, *w.P, w.H, w.T)
	case 3:
		var w struct {
			H uint8
			M map[uint8]inOld
			T uint16
		}
		ent := href.Obj(href.B(href.UChar, 9), obj)
		err := serialization.Unmarshal(href.Obj(H, []byte{href.Object | href.Array, 1}, ent, T), &w)
		sym.Assert(err == nil && len(w.M) == 1, "a map of objects with extra trailing fields was rejected")
		chk(err, w.M[9], w.H, w.T)
	case 4:
		var w struct {
			O outOld
			X uint8
		}
		err := serialization.Unmarshal(href.Obj(href.Obj(H, obj, T, extra), href.B(href.UChar, 5)), &w)
		chk(err, w.O.In, w.O.H, w.O.T)
		sym.Assert(w.X == 5, "data after the outer object is wrong")
	case 5:
		w := inOld{7, "y"}
		err := serialization.Unmarshal(obj, &w)
		chk(err, w, h, tail)
	}
}

//verif:harness prop=C04 budget=60 bound="an inner object that carries only its first 0..6 of 6 fields, symbolic (integers over 256 or all values); prior values of the rest kept; read as a field, in a slice, through a pointer, at top level, and with type information"
func MissingKept() {
	v := inNew{A: sym.U32("a"), S: "s" + string([]byte{sym.U8("s") & 0x7f}), B: mid("b"), L: []uint16{mid("l")}, N: smallT{A: sym.I8("na")}}
	v.G.Data1 = sym.U32("g") | 1
	h, tail := sym.U8("h"), mid("t")
	fields := [][]byte{
		href.U(href.UInt32, uint64(v.A)), href.Ascii(v.S), href.U(href.UShort, uint64(v.B)), href.GuidV(v.G.Data1, 0, 0, [8]byte{}),
		href.Cat([]byte{href.UShort | href.Array, 1}, href.U(href.UShort, uint64(v.L[0]))),
		href.Obj(href.BoolV(false), href.B(href.Char, byte(v.N.A)), href.B(href.UChar, 0), href.BoolV(false)),
	}
	k := sym.Choose("fields", 7)
	prior := inNew{A: 11, S: "prior", B: 13, G: serialization.GUID{Data2: 5}, L: []uint16{1, 2, 3}, N: smallT{true, 1, 2, true}}
	obj := href.Obj(fields[:k]...)
	if sym.Choose("typed", 2) == 1 {
		obj = href.ObjTyped([]byte("x"), fields[:k]...)
	}
	H, T := href.B(href.UChar, h), href.U(href.UShort, uint64(tail))
	var got inNew
	var err error
	gh, gt := h, tail
	switch sym.Choose("shape", 4) {
	case 0:
		w := outNew{1, prior, 3}
		err = serialization.Unmarshal(href.Obj(H, obj, T), &w)
		got, gh, gt = w.In, w.H, w.T
	case 1:
		w := struct {
			H uint8
			L []inNew
			T uint16
		}{L: []inNew{prior}}
		err = serialization.Unmarshal(href.Obj(H, []byte{href.Object | href.Array, 2}, obj, obj, T), &w)
		sym.Assert(err == nil && len(w.L) == 2, "a slice of objects with fewer fields was rejected")
		sym.Assert(sym.DeepEq(w.L[0], w.L[1]), "equal elements decode differently")
		got, gh, gt = w.L[0], w.H, w.T
		prior = inNew{}
	case 2:
		var w struct {
			H uint8
			P *inNew
			T uint16
		}
		err = serialization.Unmarshal(href.Obj(H, []byte{href.Pointer}, obj, T), &w)
		sym.Assert(err == nil && w.P != nil, "a pointer to an object with fewer fields was rejected")
		got, gh, gt = *w.P, w.H, w.T
		prior = inNew{}
	case 3:
		got = prior
		err = serialization.Unmarshal(obj, &got)
	}
	sym.Assert(err == nil, "an object with fewer fields was rejected")
	sym.Assert(gh == h && gt == tail, "data around the object is wrong")
	want := v
	switch k {
	case 0:
		want = prior
	case 1:
		want.S = prior.S
		fallthrough
	case 2:
		want.B = prior.B
		fallthrough
	case 3:
		want.G = prior.G
		fallthrough
	case 4:
		want.L = prior.L
		fallthrough
	case 5:
		want.N = prior.N
	}
	sym.Assert(sym.DeepEq(got, want), "a field is wrong: written fields must be set, missing ones kept")
}

// Elements of one list may come from writers of different versions.
//
//verif:harness prop=C04 budget=60 tbudget=240 bound="2 (thorough 3) objects of a list, each with its first 0..3 of 3 fields (uint32, string of one char, list of one uint16, symbolic) or all and 0..2 (thorough 3) arbitrary extra bytes, read as a slice of structs, of pointers, or the values of a map"
func MixedVersions() {
	type elem struct {
		A uint32
		S string
		L []uint16
	}
	n := sym.Tier(2, 3)
	var objs [][]byte
	var wants []elem
	for i := 0; i < n; i++ {
		v := elem{sym.U32("a"), string([]byte{sym.U8("s") & 0x7f}), []uint16{mid("l")}}
		fields := [][]byte{
			href.U(href.UInt32, uint64(v.A)), href.Ascii(v.S),
			href.Cat([]byte{href.UShort | href.Array, 1}, href.U(href.UShort, uint64(v.L[0]))),
		}
		k := sym.Choose("fields", 4+sym.Tier(2, 3))
		var w elem
		if k > 0 {
			w.A = v.A
		}
		if k > 1 {
			w.S = v.S
		}
		if k > 2 {
			w.L = v.L
		}
		if k > 3 {
			fields = append(fields, sym.Bytes("extra", k-3))
			k = 4
		}
		objs = append(objs, href.Obj(fields[:k]...))
		wants = append(wants, w)
	}
	tail := mid("t")
	T := href.U(href.UShort, uint64(tail))
	var err error
	var gt uint16
	got := make([]elem, n)
	switch sym.Choose("shape", 3) {
	case 0:
		var w struct {
			L []elem
			T uint16
		}
		err = serialization.Unmarshal(href.Obj([]byte{href.Object | href.Array, byte(n)}, href.Cat(objs...), T), &w)
		sym.Assert(err == nil && len(w.L) == n, "a list of objects of different versions was rejected")
		got, gt = w.L, w.T
	case 1:
		var w struct {
			L []*elem
			T uint16
		}
		b := []byte{href.UInt32, byte(n)}
		for _, o := range objs {
			b = append(append(b, href.Pointer), o...)
		}
		err = serialization.Unmarshal(href.Obj(b, T), &w)
		sym.Assert(err == nil && len(w.L) == n, "a list of objects of different versions was rejected")
		for i, p := range w.L {
			got[i] = *p
		}
		gt = w.T
	case 2:
		var w struct {
			M map[uint8]elem
			T uint16
		}
		b := []byte{href.Object | href.Array, byte(n)}
		for i, o := range objs {
			b = append(b, href.Obj(href.B(href.UChar, byte(1+i)), o)...)
		}
		err = serialization.Unmarshal(href.Obj(b, T), &w)
		sym.Assert(err == nil && len(w.M) == n, "a map of objects of different versions was rejected")
		for i := range got {
			got[i] = w.M[uint8(1+i)]
		}
		gt = w.T
	}
	sym.Assert(gt == tail, "data behind the list is wrong")
	for i := range got {
		sym.Assert(sym.DeepEq(got[i], wants[i]), "an element of the list is wrong: written fields must be set, missing ones zero")
	}
}

//verif:harness prop=C04 budget=60 bound="values written by this library with a struct of 6 fields, read into one with 2 and back, every scalar symbolic (most of them over 256 values, so that their packed length is fixed)"
func AcrossVersions() {
	v := outNew{H: sym.U8("h"), T: mid("t"), In: inNew{A: sym.U32("a"), S: "s" + string([]byte{sym.U8("s") & 0x7f}), B: mid("b"), N: smallT{A: sym.I8("na"), Last: sym.Bool("nl")}}}
	v.In.G.Data3 = sym.U16("g") | 1
	for i := sym.Choose("l", 3); i > 0; i-- {
		v.In.L = append(v.In.L, mid("e"))
	}
	data, err := serialization.Marshal(&v)
	sym.Assert(err == nil, "encoding failed")
	o := outOld{9, inOld{9, "z"}, 9}
	sym.Assert(serialization.Unmarshal(data, &o) == nil, "a newer object was rejected")
	sym.Assert(sym.DeepEq(o, outOld{v.H, inOld{v.In.A, v.In.S}, v.T}), "a common field is wrong")
	data, err = serialization.Marshal(&o)
	sym.Assert(err == nil, "encoding failed")
	w := v
	w.H, w.T, w.In.A, w.In.S = 1, 1, 1, "q"
	sym.Assert(serialization.Unmarshal(data, &w) == nil, "an older object was rejected")
	sym.Assert(sym.DeepEq(w, v), "a field is wrong after reading an older object")
}

type EmbBase struct{ X, Y uint16 }
type embPub struct {
	EmbBase
	Z uint16
}

//verif:harness prop=C04 budget=30 bound="embedded structs, any values, 0..3 fields present, with and without 0..3 arbitrary extra bytes"
func EmbeddedVersions() {
	x, y, z := sym.U16("x"), sym.U16("y"), sym.U16("z")
	fs := [][]byte{href.U(href.UShort, uint64(x)), href.U(href.UShort, uint64(y)), href.U(href.UShort, uint64(z))}
	k := sym.Choose("k", 4)
	fs = fs[:k]
	if k == 3 {
		fs = append(fs, sym.Bytes("extra", sym.Choose("n", 4)))
	}
	w := struct {
		E embPub
		T uint8
	}{E: embPub{EmbBase{1, 2}, 3}}
	err := serialization.Unmarshal(href.Obj(href.Obj(fs...), href.B(href.UChar, 8)), &w)
	sym.Assert(err == nil && w.T == 8, "an object with embedded fields was rejected or misread")
	want := embPub{EmbBase{1, 2}, 3}
	if k > 0 {
		want.X = x
	}
	if k > 1 {
		want.Y = y
	}
	if k > 2 {
		want.Z = z
	}
	sym.Assert(w.E == want, "an embedded field is wrong")
}

//verif:harness prop=C04 budget=60 bound="type information of 1..4 arbitrary bytes, and of 63, 64, 127..130, 300 bytes with arbitrary first and last, on the outer, the inner or both objects"
func TypeInfoSkipped() {
	lens := []int{1, 2, 3, 4, 63, 64, 127, 128, 130, 300}
	n := lens[sym.Choose("len", len(lens))]
	info := make([]byte, n)
	if n <= 4 {
		info = sym.Bytes("info", n)
	} else {
		for i := range info {
			info[i] = byte(i)
		}
		info[0], info[n-1] = sym.U8("first"), sym.U8("last")
	}
	which := 1 + sym.Choose("which", 3)
	a, s, h, tail := sym.U32("a"), "hé", sym.U8("h"), sym.U16("t")
	mk := func(typed bool, f ...[]byte) []byte {
		if typed {
			return href.ObjTyped(info, f...)
		}
		return href.Obj(f...)
	}
	in := mk(which&1 != 0, href.U(href.UInt32, uint64(a)), href.Str16([]uint16{'h', 0xe9}))
	data := mk(which&2 != 0, href.B(href.UChar, h), in, href.U(href.UShort, uint64(tail)))
	w := outOld{1, inOld{2, "x"}, 3}
	err := serialization.Unmarshal(data, &w)
	sym.Assert(err == nil, "an object with type information was rejected")
	sym.Assert(sym.DeepEq(w, outOld{h, inOld{a, s}, tail}), "a field is wrong after type information")
}
