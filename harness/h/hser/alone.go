package hser

import (
	"github.com/tg123/phabrik/serialization"
	"github.com/tg123/phabrik/zzverif/sym"
)

type leafT struct {
	N uint32
	S string
}

// aloneT has a field of every kind that refers to memory of its own.
type aloneT struct {
	S  string
	B  []uint8
	I  []int32
	SS []string
	L  []leafT
	P  *leafT
	PP []*leafT
	M  map[uint16]string
	G  serialization.GUID
	GG []serialization.GUID
	N  uint64
}

// alone holds arbitrary leaves, letter tells two values apart.
func alone(name string, letter byte) *aloneT {
	b := sym.Bytes(name, 4)
	// one length each, the kinds of lengths are C05's
	sym.Assume(sym.And(b[0] < 0x80, b[0] > 0, b[1] < 32, b[1] > 0, b[2] < 32, b[2] > 0, b[3] < 32, b[3] > 0))
	s := string([]byte{b[0], letter})
	return &aloneT{
		S: s, B: []uint8{b[1], b[2], letter}, I: []int32{int32(b[1]), -5}, SS: []string{s, "", "x"},
		L: []leafT{{uint32(b[2]), s}, {0, ""}}, P: &leafT{7, s}, PP: []*leafT{nil, {uint32(b[3]), "p"}},
		M: map[uint16]string{uint16(letter): s}, G: serialization.GUID{Data1: uint32(b[1]), Data4: [8]byte{1, 2, 3, 4, 5, 6, 7, b[3]}},
		GG: []serialization.GUID{{Data2: uint16(letter)}}, N: uint64(b[3]) << 33,
	}
}

// twin is an equal value that shares nothing with v.
func twin(v *aloneT) *aloneT {
	w := *v
	w.B = append([]uint8(nil), v.B...)
	w.I = append([]int32(nil), v.I...)
	w.SS = append([]string(nil), v.SS...)
	w.L = append([]leafT(nil), v.L...)
	w.GG = append([]serialization.GUID(nil), v.GG...)
	p, q := *v.P, *v.PP[1]
	w.P, w.PP = &p, []*leafT{nil, &q}
	w.M = map[uint16]string{}
	for k, s := range v.M {
		w.M[k] = s
	}
	return &w
}

// spoil changes all memory a value refers to.
func spoil(v *aloneT) {
	for i := range v.B {
		v.B[i] ^= 0xff
	}
	for i := range v.I {
		v.I[i]++
	}
	for i := range v.SS {
		v.SS[i] += "!"
	}
	for i := range v.L {
		v.L[i] = leafT{99, "?"}
	}
	*v.P = leafT{98, "!"}
	*v.PP[1] = leafT{97, "!"}
	v.PP[0] = &leafT{}
	for k := range v.M {
		v.M[k] += "."
	}
	v.M[50000] = "new"
	v.GG[0].Data1++
	v.S, v.N = "", 0
}

func encode(v interface{}) []byte {
	b, err := serialization.Marshal(v)
	sym.Assert(err == nil, "encoding failed")
	return b
}

func decode(b []byte) *aloneT {
	w := &aloneT{}
	sym.Assert(serialization.Unmarshal(b, w) == nil, "decoding what was encoded failed")
	return w
}

type badT struct {
	A uint32
	L []leafT
	C interface{}
}

//verif:harness prop=C38 budget=60 tbudget=200 bound="two values with strings, slices, pointers, a map and GUIDs (4 arbitrary bytes of 5 or 7 bits each), encoded and decoded in turn; between the calls one of: a value that cannot be encoded, bytes that cannot be decoded (cut by 1 to 100), either value or any of the bytes overwritten"
func Alone() {
	v, u := alone("v", 'a'), alone("u", 'b')
	v0, u0 := twin(v), twin(u)
	bv := encode(v)
	sym.Assert(sym.DeepEq(v, v0), "encoding changes the value")
	cv := append([]byte(nil), bv...)
	between := func(n int) {
		switch sym.Choose("between", n) {
		case 1:
			_, err := serialization.Marshal(&badT{5, []leafT{{1, "bad"}}, 3})
			sym.Assert(err != nil, "a value of an unsupported type is encoded")
		case 2:
			sym.Assert(serialization.Unmarshal(cv[:len(cv)-[]int{1, 2, 3, 12, 30, 60, 100}[sym.Choose("cut", 7)]], &aloneT{}) != nil, "cut bytes are decoded")
		case 3:
			spoil(v)
			v = twin(v0)
		}
	}
	between(4)
	bu := encode(u)
	sym.Assert(sym.BytesEq(bv, cv), "the encoded bytes change with a later call")
	cu := append([]byte(nil), bu...)
	w := decode(bv)
	sym.Assert(sym.BytesEq(bv, cv), "decoding changes the bytes it is given")
	sym.Assert(sym.DeepEq(w, v0), "the decoded value differs")
	between(3)
	x := decode(bu)
	sym.Assert(sym.DeepEq(x, u0), "the decoded value differs")
	y := decode(bv)
	sym.Assert(sym.DeepEq(y, v0), "the bytes decode to another value the second time")
	sym.Assert(sym.DeepEq(w, v0), "a decoded value changes with a later call")
	for i := range bv {
		bv[i] ^= 0xff
	}
	sym.Assert(sym.DeepEq(w, v0) && sym.DeepEq(y, v0), "a decoded value changes with the bytes it came from")
	sym.Assert(sym.BytesEq(bu, cu), "two encodings share memory")
	spoil(w)
	sym.Assert(sym.DeepEq(x, u0) && sym.DeepEq(y, v0), "two decoded values share memory")
	spoil(u)
	sym.Assert(sym.BytesEq(bu, cu), "the encoded bytes change with the value")
	sym.Assert(sym.BytesEq(encode(v), cv), "a value's encoding differs the second time")
	sym.Assert(sym.DeepEq(v, v0), "encoding changes the value")
}

//verif:harness prop=C38 budget=60 tbudget=300 sched=1 bound="two goroutines that encode the same or different values and decode the same or different bytes, after such calls or as the first ones; one preemption (thorough two) anywhere"
func Together() {
	v, u := alone("v", 'a'), alone("u", 'b')
	v0, u0 := twin(v), twin(u)
	warm := sym.Choose("warm", 2) == 1
	var cv, cu []byte
	if warm {
		cv, cu = encode(v), encode(u)
	}
	bv, bu := append([]byte(nil), cv...), append([]byte(nil), cu...)
	same := sym.Choose("same", 2) == 1
	if same {
		u, u0, bu, cu = v, v0, bv, cv
	}
	what := 0
	if warm {
		what = sym.Choose("what", 3)
	}
	sym.Preempt(sym.Tier(1, 2))
	done := make(chan bool, 2)
	run := func(v, v0 *aloneT, b, c []byte, dec bool) {
		ok := false
		if dec {
			w := &aloneT{}
			ok = serialization.Unmarshal(b, w) == nil && sym.DeepEq(w, v0)
		} else {
			got, err := serialization.Marshal(v)
			if warm {
				ok = err == nil && sym.BytesEq(got, c)
			} else {
				w := &aloneT{}
				ok = err == nil && serialization.Unmarshal(got, w) == nil && sym.DeepEq(w, v0)
			}
		}
		done <- ok
	}
	go run(v, v0, bv, cv, what == 1)
	go run(u, u0, bu, cu, what >= 1)
	a, b := <-done, <-done
	sym.Preempt(0)
	sym.Assert(a && b, "concurrent calls give other results than one after the other")
	sym.Assert(sym.DeepEq(v, v0) && sym.DeepEq(u, u0) && sym.BytesEq(bv, cv) && sym.BytesEq(bu, cu), "concurrent calls change what they are given")
}
