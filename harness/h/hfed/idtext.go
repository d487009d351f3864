package hfed

import (
	"github.com/tg123/phabrik/federation"
	"github.com/tg123/phabrik/serialization"
	"github.com/tg123/phabrik/zzverif/href"
	"github.com/tg123/phabrik/zzverif/sym"
)

func isHex(c byte) bool {
	return sym.Or(sym.And(c >= '0', c <= '9'), sym.And(c >= 'a', c <= 'f'), sym.And(c >= 'A', c <= 'F'))
}

func hexVal(c byte) byte {
	return sym.IteU8(c <= '9', c-'0', sym.IteU8(c >= 'a', c-'a'+10, c-'A'+10))
}

//verif:harness prop=C20 budget=60 bound="every node ID (128 bits): 32 lower- or upper-case hexadecimal digits, most significant first, that parse back"
func IdText() {
	id := anyID("id")
	s := id.String()
	sym.Assert(len(s) == 32, "the text of a node ID is not 32 digits")
	for i := 0; i < 32; i++ {
		w := id.Hi
		if i >= 16 {
			w = id.Lo
		}
		sym.Assert(isHex(s[i]), "the text of a node ID has a character that is no hexadecimal digit")
		sym.Assert(hexVal(s[i]) == byte(w>>uint(60-4*(i%16)))&15, "a digit of a node ID's text is wrong")
	}
	p, err := federation.NodeIDFromHex(s)
	sym.Assert(err == nil, "the text of a node ID was rejected")
	sym.Assert(p == id, "the text of a node ID parses to another one")
}

func parseHex(b []byte) {
	ok := len(b) > 0
	var want federation.NodeID
	for i, c := range b {
		ok = sym.And(ok, isHex(c))
		v := hexVal(c)
		if i < len(b)-32 {
			// more than 128 bits unless zero
			ok = sym.And(ok, v == 0)
		}
		want.Hi = want.Hi<<4 | want.Lo>>60
		want.Lo = want.Lo<<4 | uint64(v)
	}
	id, err := federation.NodeIDFromHex(string(b))
	if ok {
		sym.Reach("accepted")
		sym.Assert(err == nil, "a hexadecimal number of at most 128 bits was rejected")
		sym.Assert(id == want, "a hexadecimal number parses to the wrong node ID")
	} else {
		sym.Reach("rejected")
		sym.Assert(err != nil, "text that is no unsigned hexadecimal number of at most 128 bits was accepted")
	}
}

//verif:harness prop=C20 budget=60 tbudget=300 reach=accepted,rejected bound="every text of 0..4 (thorough 7) bytes"
func ParseShort() {
	parseHex(sym.Bytes("text", sym.Choose("n", sym.Tier(5, 8))))
}

//verif:harness prop=C20 budget=60 tbudget=300 reach=accepted,rejected bound="texts of 8, 16, 17, 31..36 (thorough every length up to 40) bytes: hexadecimal digits of either case, of which one, at any position, is an arbitrary byte"
func ParseLong() {
	lens := []int{8, 16, 17, 31, 32, 33, 34, 36}
	var n int
	if sym.Tier(0, 1) == 1 {
		n = 5 + sym.Choose("n", 36)
	} else {
		n = lens[sym.Choose("n", len(lens))]
	}
	k := sym.Choose("pos", n)
	b := sym.Bytes("text", n)
	for i, c := range b {
		if i != k {
			sym.Assume(isHex(c))
		}
	}
	parseHex(b)
}

func idBytes(id federation.NodeID) []byte {
	return href.Cat([]byte{href.UChar | href.Array}, href.PackU(16), href.LE64(id.Hi), href.LE64(id.Lo))
}

func inst(name string) federation.NodeInstance {
	return federation.NodeInstance{Id: anyID(name), InstanceId: sym.U64(name + ".instance")}
}

func check(v, w interface{}, want []byte) {
	data, err := serialization.Marshal(v)
	sym.Assert(err == nil, "encoding failed")
	if want != nil {
		sym.Assert(sym.BytesEq(data, want), "bytes differ from the wire layout")
	}
	err = serialization.Unmarshal(data, w)
	sym.Assert(err == nil, "decoding what was encoded failed")
	sym.Assert(sym.DeepEq(v, w), "the decoded value differs")
}

//verif:harness prop=C20,C02 budget=60 bound="node IDs, instances and ranges of any value as fields, with fields around them"
func IdFields() {
	switch sym.Choose("shape", 4) {
	case 0:
		type T struct {
			A uint8
			N federation.NodeID
			B uint8
		}
		v := T{1, anyID("id"), 2}
		check(&v, &T{B: 9}, href.Obj(href.B(href.UChar, 1), idBytes(v.N), href.B(href.UChar, 2)))
	case 1:
		type T struct {
			N federation.NodeInstance
			B uint8
		}
		v := T{inst("n"), 2}
		check(&v, &T{B: 9}, href.Obj(href.Obj(idBytes(v.N.Id), href.U(href.UInt64, v.N.InstanceId)), href.B(href.UChar, 2)))
	case 2:
		type T struct {
			A uint8
			R federation.NodeIdRange
			B uint8
		}
		v := T{1, federation.NodeIdRange{Begin: anyID("b"), End: anyID("e")}, 2}
		check(&v, &T{B: 9}, href.Obj(href.B(href.UChar, 1), idBytes(v.R.Begin), idBytes(v.R.End), href.B(href.UChar, 2)))
	case 3:
		type T struct {
			R, S federation.NodeIdRange
			N    federation.NodeInstance
			L    federation.NodeID
		}
		v := T{federation.NodeIdRange{Begin: anyID("b"), End: anyID("e")}, federation.NodeIdRange{Begin: anyID("b"), End: anyID("e")}, inst("n"), anyID("l")}
		check(&v, &T{}, nil)
	}
}

//verif:harness prop=C20 budget=60 bound="a node instance of any value at top level"
func InstanceTop() {
	v := inst("n")
	check(&v, &federation.NodeInstance{}, href.Obj(idBytes(v.Id), href.U(href.UInt64, v.InstanceId)))
}

//verif:harness prop=C20 budget=60 bound="a node ID and a node ID range of any value at top level"
func IdTop() {
	if sym.Choose("what", 2) == 0 {
		v := anyID("id")
		check(&v, &federation.NodeID{Hi: 5}, nil)
	} else {
		v := federation.NodeIdRange{Begin: anyID("b"), End: anyID("e")}
		check(&v, &federation.NodeIdRange{Begin: federation.NodeID{Lo: 5}}, nil)
	}
}

//verif:harness prop=C20 budget=60 tbudget=200 bound="slices of 0..3 and pointers of node IDs, instances and ranges of any value, a map keyed by node ID of 0..2 distinct IDs"
func IdCollections() {
	n := sym.Choose("n", 4)
	switch sym.Choose("shape", 7) {
	case 0:
		type T struct {
			L []federation.NodeID
			B uint8
		}
		v := T{B: 3}
		for i := 0; i < n; i++ {
			v.L = append(v.L, anyID("id"))
		}
		check(&v, &T{}, nil)
	case 1:
		type T struct {
			L []federation.NodeInstance
			B uint8
		}
		v := T{B: 3}
		for i := 0; i < n; i++ {
			v.L = append(v.L, federation.NodeInstance{Id: anyID("id"), InstanceId: uint64(sym.U8("inst"))})
		}
		check(&v, &T{}, nil)
	case 2:
		type T struct {
			L []federation.NodeIdRange
			B uint8
		}
		v := T{B: 3}
		for i := 0; i < n; i++ {
			v.L = append(v.L, federation.NodeIdRange{Begin: anyID("b"), End: anyID("e")})
		}
		check(&v, &T{}, nil)
	case 3:
		type T struct {
			P *federation.NodeID
			Q *federation.NodeInstance
			R *federation.NodeIdRange
			B uint8
		}
		v := T{B: 3}
		if n&1 != 0 {
			id := anyID("p")
			v.P = &id
			v.Q = &federation.NodeInstance{Id: id, InstanceId: 7}
		}
		if n&2 != 0 {
			v.R = &federation.NodeIdRange{Begin: anyID("b"), End: anyID("e")}
		}
		check(&v, &T{}, nil)
	case 4:
		type T struct {
			M map[federation.NodeID]uint8
			B uint8
		}
		v := T{B: 3}
		if n > 0 {
			v.M = map[federation.NodeID]uint8{}
		}
		for i := 0; i < n && i < 2; i++ {
			v.M[anyID("k")] = byte(i)
		}
		check(&v, &T{}, nil)
	case 5:
		type In struct {
			R federation.NodeIdRange
			N federation.NodeID
		}
		type T struct {
			I In
			L []In
			B uint8
		}
		v := T{I: In{federation.NodeIdRange{Begin: anyID("b"), End: anyID("e")}, anyID("n")}, B: 3}
		for i := 0; i < n && i < 2; i++ {
			v.L = append(v.L, In{federation.NodeIdRange{Begin: anyID("b"), End: anyID("e")}, anyID("n")})
		}
		check(&v, &T{}, nil)
	case 6:
		type T struct {
			M map[string]federation.NodeInstance
			B uint8
		}
		v := T{B: 3}
		if n > 0 {
			v.M = map[string]federation.NodeInstance{"x": inst("x")}
		}
		check(&v, &T{}, nil)
	}
}

//verif:harness prop=C20 budget=60 reach=good,bad bound="a field holding 0 to 20 bytes as a node ID, of any announced length (7 bits) and any type, as a field and in an instance"
func IdSize() {
	n := sym.Choose("n", 21)
	typ, size := byte(href.UChar|href.Array), byte(n)
	switch sym.Choose("odd", 3) {
	case 1:
		typ = sym.U8("type")
		// empty stands for zero, the end of the object for a field left out
		sym.Assume(sym.And(typ&href.Empty == 0, typ != href.ScopeEnd))
	case 2:
		size = sym.U8("size") & 0x3f
	}
	id := href.Cat([]byte{typ, size}, sym.Bytes("id", n))
	var err error
	if sym.Choose("shape", 2) == 0 {
		var v struct {
			N federation.NodeID
			B uint8
		}
		err = serialization.Unmarshal(href.Obj(id, href.B(href.UChar, 7)), &v)
	} else {
		var v struct {
			N federation.NodeInstance
			B uint8
		}
		err = serialization.Unmarshal(href.Obj(href.Obj(id, href.U(href.UInt64, 3)), href.B(href.UChar, 7)), &v)
	}
	if n != 16 && typ == href.UChar|href.Array && size == 16 {
		return // the bytes after it count as the ID's
	}
	if typ == href.UChar|href.Array && size == 16 {
		sym.Reach("good")
		sym.Assert(err == nil, "a node ID is rejected")
	} else {
		sym.Reach("bad")
		sym.Assert(err != nil, "a field that does not hold a node ID decodes as one")
	}
}
