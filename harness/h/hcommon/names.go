package hcommon

import (
	"github.com/tg123/phabrik/federation"
	"github.com/tg123/phabrik/naming"
	"github.com/tg123/phabrik/serialization"
	"github.com/tg123/phabrik/transport"
	"github.com/tg123/phabrik/zzverif/sym"
)

func anyGuid(name string) serialization.GUID {
	g := serialization.GUID{Data1: sym.U32(name + ".1"), Data2: sym.U16(name + ".2"), Data3: sym.U16(name + ".3")}
	copy(g.Data4[:], sym.Bytes(name+".4", 8))
	return g
}

// decimal checks that a text is the decimal form of a number.
func decimal(s string, n uint64) bool {
	ok := len(s) > 0
	v := uint64(0)
	for i := 0; i < len(s); i++ {
		ok = sym.And(ok, s[i] >= '0', s[i] <= '9')
		v = v*10 + uint64(s[i]-'0')
	}
	return sym.And(ok, v == n, sym.Or(len(s) == 1, s[0] != '0'))
}

//verif:harness prop=C44 budget=60 bound="every GUID (128 bits) and index (8 bits, from 0 or near the largest) of a message, activity and naming activity identifier"
func IdNames() {
	g := anyGuid("g")
	n := uint64(sym.U8("index"))
	kind := sym.Choose("kind", 2)
	if sym.Choose("large", 2) == 1 {
		n += []uint64{4294967000, 18446744073709551000}[kind]
	}
	var s string
	if kind == 0 {
		s = transport.MessageId{Id: g, Index: uint32(n)}.String()
	} else {
		s = naming.ActivityId{Id: g, Index: n}.String()
	}
	sym.Assert(len(s) > 37 && s[36] == ':', "an identifier's text is not its GUID and its index")
	sym.Assert(sym.BytesEq([]byte(s[:36]), []byte(g.String())), "an identifier's text is not its GUID and its index")
	sym.Assert(decimal(s[37:], n), "an identifier's text is not its GUID and its index")
}

//verif:harness prop=C44 budget=60 bound="emptiness of every message and naming activity identifier"
func IdEmpty() {
	g := anyGuid("g")
	zero := sym.And(g.Data1 == 0, g.Data2 == 0, g.Data3 == 0, sym.BytesEq(g.Data4[:], make([]byte, 8)))
	i, j := sym.U32("index"), sym.U64("index")
	sym.Assert(sym.Iff(g.IsEmpty(), zero), "a GUID is empty and not zero, or the other way round")
	sym.Assert(sym.Iff(transport.MessageId{Id: g, Index: i}.IsEmpty(), sym.And(zero, i == 0)), "a message identifier is empty and not zero, or the other way round")
	sym.Assert(sym.Iff(naming.ActivityId{Id: g, Index: j}.IsEmpty(), sym.And(zero, j == 0)), "an activity identifier is empty and not zero, or the other way round")
}

// named checks a value's text: the type's name and what tells it apart.
func named(s, typ string) {
	sym.Assert(len(s) > len(typ) && s[:len(typ)] == typ, "a value's text does not begin with its type")
}

//verif:harness prop=C44 budget=60 tbudget=120 bound="the text of every value of the actors (below 2^17 and any 16 bits around -2^63 and 2^63), the header types (16 bits), the node phases (8 bits, signed) and the serialization types (8 bits)"
func EnumNames() {
	switch sym.Choose("type", 4) {
	case 0:
		v := int64(sym.U32("v") & 0x1ffff)
		if k := sym.Choose("range", 3); k > 0 {
			v = []int64{0, -1 << 63, 1<<63 - 1 - 0xffff}[k] + int64(sym.U16("w"))
		}
		named(transport.MessageActorType(v).String(), "MessageActorType")
	case 1:
		named(transport.MessageHeaderIdType(sym.U16("v")).String(), "MessageHeaderIdType")
	case 2:
		named(federation.NodePhase(sym.I8("v")).String(), "NodePhase")
	case 3:
		named(serialization.FabricSerializationType(sym.U8("v")).String(), "FabricSerializationType")
	}
}

//verif:harness prop=C44 budget=60 bound="every pair of different actors, serialization types (6 bits each), header types (from 0x8000, 6 bits) and node phases (3 bits)"
func EnumPairs() {
	a, b := sym.U8("a")&63, sym.U8("b")&63
	sym.Assume(a < b)
	var s, t string
	switch sym.Choose("type", 4) {
	case 0:
		s, t = transport.MessageActorType(a).String(), transport.MessageActorType(b).String()
	case 1:
		s, t = serialization.FabricSerializationType(a).String(), serialization.FabricSerializationType(b).String()
	case 2:
		s, t = transport.MessageHeaderIdType(0x8000+uint16(a)).String(), transport.MessageHeaderIdType(0x8000+uint16(b)).String()
	case 3:
		sym.Assume(b < 8)
		s, t = federation.NodePhase(a).String(), federation.NodePhase(b).String()
	}
	sym.Assert(s != t, "two values have one text")
}
