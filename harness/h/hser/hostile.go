package hser

import (
	"github.com/tg123/phabrik/common"
	"github.com/tg123/phabrik/federation"
	"github.com/tg123/phabrik/serialization"
	"github.com/tg123/phabrik/zzverif/href"
	"github.com/tg123/phabrik/zzverif/sym"
)

// hostile decodes arbitrary bytes into w. Panics, unbounded loops and
// out-of-proportion allocation are reported by the engine.
func hostile(data []byte, w interface{}) error {
	sym.StepLimit(400000)
	sym.AllocLimit(64 << 10)
	err := serialization.Unmarshal(data, w)
	if err == nil {
		sym.Reach("accepted")
	} else {
		sym.Reach("rejected")
	}
	sym.Done()
	return err
}

// framed is an object header with arbitrary size and flags followed by n
// arbitrary bytes.
func framed(n int) []byte {
	return href.Cat([]byte{href.Object}, sym.Bytes("size", 4), sym.Bytes("flags", 1), []byte{0, 0, 0}, sym.Bytes("rest", n))
}

// inScope is an object without type information, whose scope holds n
// arbitrary bytes, followed by tail arbitrary bytes. The size is arbitrary.
func inScope(n int) []byte {
	return href.Cat([]byte{href.Object}, sym.Bytes("size", 4), []byte{0, 0, 0, 0, href.ScopeBegin}, sym.Bytes("body", n))
}

type mixedT struct {
	S string
	U uint32
	I int64
	B uint8
	F float64
	T bool
	L []uint16
	G serialization.GUID
	P *smallT
	M map[uint32]string
	N smallT
}

//verif:harness prop=C03 noassert=1 budget=60 tbudget=300 bound="every byte string of length 0..9 (thorough 12) into a struct with every field kind"
func HostileAny() {
	n := sym.Choose("n", sym.Tier(10, 13))
	hostile(sym.Bytes("b", n), &mixedT{})
}

//verif:harness prop=C03 noassert=1 budget=60 tbudget=300 reach=accepted,rejected bound="object header with any size and flags, then every 0..6 (thorough 9) bytes, into a struct with every field kind"
func HostileHeader() {
	n := sym.Choose("n", sym.Tier(7, 10))
	hostile(framed(n), &mixedT{})
}

//verif:harness prop=C03 noassert=1 budget=60 tbudget=300 reach=accepted,rejected bound="any object size, every scope content of 0..8 (thorough 11) bytes, bool/int fields"
func HostileSmall() {
	n := sym.Choose("n", sym.Tier(9, 12))
	hostile(inScope(n), &smallT{})
}

//verif:harness prop=C03 noassert=1 budget=60 tbudget=300 reach=accepted,rejected bound="any object size, every scope content of 0..8 (thorough 10) bytes, string then uint8"
func HostileString() {
	n := sym.Choose("n", sym.Tier(9, 11))
	hostile(inScope(n), &strT{})
}

type u16sT struct {
	L []uint16
	X uint8
}

//verif:harness prop=C03 noassert=1 budget=60 tbudget=300 reach=accepted,rejected bound="any object size, every scope content of 0..7 (thorough 10) bytes, []uint16"
func HostileInts() {
	n := sym.Choose("n", sym.Tier(8, 11))
	hostile(inScope(n), &u16sT{})
}

type strsT struct {
	L []string
	X uint8
}

//verif:harness prop=C03 noassert=1 budget=60 tbudget=300 reach=accepted,rejected bound="any object size, every scope content of 0..7 (thorough 9) bytes, []string"
func HostileStrings() {
	n := sym.Choose("n", sym.Tier(8, 10))
	hostile(inScope(n), &strsT{})
}

type structsT struct {
	L []smallT
	X uint8
}

//verif:harness prop=C03 noassert=1 budget=60 tbudget=300 reach=accepted,rejected bound="any object size, every scope content of 0..8 (thorough 10) bytes, []struct"
func HostileStructs() {
	n := sym.Choose("n", sym.Tier(9, 11))
	hostile(inScope(n), &structsT{})
}

//verif:harness prop=C03 noassert=1 budget=60 tbudget=300 reach=rejected bound="a slice of structs whose count is any packed number of up to 5 bytes and whose first element is an object with any size, then 0..4 (thorough 7) arbitrary bytes"
func HostileElements() {
	n := sym.Choose("n", sym.Tier(5, 8))
	k := 1 + sym.Choose("k", 5)
	hostile(href.Cat([]byte{href.Object}, sym.Bytes("size", 4), []byte{0, 0, 0, 0, href.ScopeBegin},
		[]byte{href.Object | href.Array}, sym.Bytes("count", k),
		[]byte{href.Object}, sym.Bytes("esize", 4), []byte{0, 0, 0, 0, href.ScopeBegin}, sym.Bytes("rest", n)), &structsT{})
}

// An element type with no field at all takes no input by itself.
type emptyT struct{}
type emptiesT struct {
	L []emptyT
	X uint8
}

//verif:harness prop=C03 noassert=1 budget=60 tbudget=300 reach=rejected bound="a slice of structs without fields whose count is any packed number of up to 5 bytes, then 0..4 (thorough 7) arbitrary bytes"
func HostileEmptyElements() {
	n := sym.Choose("n", sym.Tier(5, 8))
	k := 1 + sym.Choose("k", 5)
	hostile(href.Cat([]byte{href.Object}, sym.Bytes("size", 4), []byte{0, 0, 0, 0, href.ScopeBegin},
		[]byte{href.Object | href.Array}, sym.Bytes("count", k), sym.Bytes("rest", n)), &emptiesT{})
}

// Decoding only moves forward: an object whose declared size ends inside its
// own fields would have them decoded again as what follows it, so the work for
// an input would no longer be bounded by its length.
//
//verif:harness prop=C03 budget=60 reach=accepted,rejected bound="an object of any declared size with a double of any bits, then its end markers and a second object, as slice elements and as fields"
func HostileBackward() {
	type el struct{ F float64 }
	e := href.Cat([]byte{href.Object}, sym.Bytes("esize", 4), []byte{0, 0, 0, 0, href.ScopeBegin, href.Double},
		sym.Bytes("double", 8), []byte{href.ScopeEnd, href.ObjectEnd})
	size := uint32(e[1]) | uint32(e[2])<<8 | uint32(e[3])<<16 | uint32(e[4])<<24
	var err error
	switch sym.Choose("shape", 3) {
	case 0:
		err = hostile(e, &el{})
	case 1:
		var w struct{ L []el }
		err = hostile(href.Obj([]byte{href.Object | href.Array, 2}, e, href.Obj(href.F64(true, 0))), &w)
	case 2:
		var w struct {
			A el
			B uint8
		}
		err = hostile(href.Obj(e, href.B(href.UChar, 7)), &w)
	}
	if err == nil {
		sym.Assert(size >= uint32(len(e)-1), "an object whose size ends before its fields was accepted: decoding went back")
	}
}

type mapT struct {
	M map[uint16]uint16
	X uint8
}

//verif:harness prop=C03 noassert=1 budget=60 tbudget=300 reach=accepted,rejected bound="any object size, every scope content of 0..7 (thorough 10) bytes, a map"
func HostileMap() {
	n := sym.Choose("n", sym.Tier(8, 11))
	hostile(inScope(n), &mapT{})
}

type mapStrT struct {
	M map[string]smallT
	X uint8
}

//verif:harness prop=C03 noassert=1 budget=60 tbudget=300 reach=accepted,rejected bound="a map of strings to structs: any packed count of up to 2 bytes, entry object with any size, then 0..4 (thorough 6) arbitrary bytes; or every scope content of that many bytes"
func HostileMapStr() {
	n := sym.Choose("n", sym.Tier(5, 7))
	if sym.Choose("first", 2) == 0 {
		hostile(inScope(n), &mapStrT{})
		return
	}
	hostile(href.Cat([]byte{href.Object}, sym.Bytes("size", 4), []byte{0, 0, 0, 0, href.ScopeBegin},
		[]byte{href.Object | href.Array}, sym.Bytes("count", 1+sym.Choose("k", 2)),
		[]byte{href.Object}, sym.Bytes("esize", 4), []byte{0, 0, 0, 0, href.ScopeBegin}, sym.Bytes("rest", n)), &mapStrT{})
}

type hostilePtrT struct {
	P *smallT
	Q *uint32
	R **strT
	L []*strT
}

//verif:harness prop=C03 noassert=1 budget=60 tbudget=300 reach=accepted,rejected bound="any object size, every scope content of 0..8 (thorough 10) bytes, pointers and a slice of pointers"
func HostilePointers() {
	n := sym.Choose("n", sym.Tier(9, 11))
	hostile(inScope(n), &hostilePtrT{})
}

type customT struct {
	G  serialization.GUID
	GP *serialization.GUID
	GL []serialization.GUID
}

//verif:harness prop=C03 noassert=1 budget=60 tbudget=300 reach=accepted,rejected bound="any object size, every scope content of 0..9, 17..20 (thorough 0..22) bytes, GUID fields"
func HostileGuids() {
	lens := []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 17, 18, 19, 20}
	n := lens[sym.Choose("n", len(lens))]
	hostile(inScope(n), &customT{})
}

type fedT struct {
	N federation.NodeID
	I federation.NodeInstance
	R federation.NodeIdRange
	D common.TimeSpan
}

//verif:harness prop=C03 noassert=1 budget=60 tbudget=300 reach=accepted,rejected bound="any object size, every scope content of 0..8 (thorough 11) bytes, federation node ID, instance and range fields"
func HostileFed() {
	n := sym.Choose("n", sym.Tier(9, 12))
	hostile(inScope(n), &fedT{})
}

//verif:harness prop=C03 noassert=1 budget=60 bound="a string of any declared 32-bit length before 0..3 (thorough 5) arbitrary bytes"
func HostileStringLen() {
	n := sym.Choose("n", sym.Tier(4, 6))
	k := 1 + sym.Choose("k", 6)
	hostile(href.Cat([]byte{href.Object}, sym.Bytes("size", 4), []byte{0, 0, 0, 0, href.ScopeBegin},
		[]byte{href.WString | href.Array}, sym.Bytes("count", k), sym.Bytes("rest", n)), &strT{})
}

//verif:harness prop=C03 noassert=1 budget=60 bound="type information of any declared length before 0..4 (thorough 6) arbitrary bytes"
func HostileTypeInfo() {
	n := sym.Choose("n", sym.Tier(5, 7))
	k := 1 + sym.Choose("k", 5)
	hostile(href.Cat([]byte{href.Object}, sym.Bytes("size", 4), []byte{1, 0, 0, 0},
		sym.Bytes("tilen", k), sym.Bytes("rest", n)), &strT{})
}

//verif:harness prop=C03 noassert=1 budget=30 bound="targets that cannot be decoded into: non-pointers, nil pointers, pointers to non-structs, unsupported field kinds; 0..3 arbitrary bytes and an object with 0..3 arbitrary bytes"
func HostileTarget() {
	n := sym.Choose("n", 4)
	data := sym.Bytes("b", n)
	if sym.Choose("framed", 2) == 1 {
		data = inScope(n)
	}
	switch sym.Choose("target", 7) {
	case 0:
		sym.Assert(hostile(data, nil) != nil, "decoded into nil")
	case 1:
		sym.Assert(hostile(data, smallT{}) != nil, "decoded into a non-pointer")
	case 2:
		sym.Assert(hostile(data, (*smallT)(nil)) != nil, "decoded into a nil pointer")
	case 3:
		x := uint32(0)
		sym.Assert(hostile(data, &x) != nil, "decoded into a non-struct")
	case 4:
		hostile(data, &struct{ C chan int }{})
	case 5:
		hostile(data, &struct{ I interface{} }{})
	case 6:
		hostile(data, &struct{ A [2]uint16 }{})
	}
}
