// Package hfed checks the federation package.
package hfed

import (
	"github.com/tg123/phabrik/federation"
	"github.com/tg123/phabrik/zzverif/sym"
)

func anyID(name string) federation.NodeID {
	return federation.NodeID{Hi: sym.U64(name + ".hi"), Lo: sym.U64(name + ".lo")}
}

// less-or-equal on 128-bit numbers, written without the code under test
func le(a, b federation.NodeID) bool {
	return sym.Or(a.Hi < b.Hi, sym.And(a.Hi == b.Hi, a.Lo <= b.Lo))
}

// dist is the clockwise distance from a to b, modulo 2^128.
func dist(a, b federation.NodeID) federation.NodeID {
	lo := b.Lo - a.Lo
	borrow := sym.IteU64(b.Lo < a.Lo, 1, 0)
	return federation.NodeID{Hi: b.Hi - a.Hi - borrow, Lo: lo}
}

//verif:harness prop=C21 budget=60 bound="every begin, end and id (3 x 128 bits)"
func RangeContains() {
	b, e, id := anyID("begin"), anyID("end"), anyID("id")
	r := federation.NodeIdRange{Begin: b, End: e}
	got := r.Contains(id)
	// walking clockwise from begin, id is met no later than end
	want := le(dist(b, id), dist(b, e))
	if got {
		sym.Reach("inside")
	} else {
		sym.Reach("outside")
	}
	sym.Assert(got == want, "Contains disagrees with the clockwise walk")
}

//verif:harness prop=C21 budget=30 bound="ranges and ids at the ring's corners"
func RangeCorners() {
	max := federation.NodeID{Hi: ^uint64(0), Lo: ^uint64(0)}
	pts := []federation.NodeID{federation.MinNodeID, {Hi: 0, Lo: 1}, {Hi: 0, Lo: ^uint64(0)}, {Hi: 1, Lo: 0}, {Hi: ^uint64(0), Lo: 0}, max}
	b, e := pts[sym.Choose("b", len(pts))], pts[sym.Choose("e", len(pts))]
	id := anyID("id")
	r := federation.NodeIdRange{Begin: b, End: e}
	sym.Assert(r.Contains(b), "the begin of a range belongs to it")
	sym.Assert(r.Contains(e), "the end of a range belongs to it")
	sym.Assert(r.Contains(id) == le(dist(b, id), dist(b, e)), "Contains disagrees with the clockwise walk")
}
