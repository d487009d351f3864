package main

import (
	"go/types"
	"strings"
)

// sizer measures what is reachable from a value, in memory cells and string
// bytes. It does not enter objects of the harnesses.
type sizer struct {
	r     *Run
	n     int
	cells map[*Value]bool
	objs  map[any]bool
}

func (z *sizer) seen(o any) bool {
	if z.objs[o] {
		return true
	}
	z.objs[o] = true
	return false
}

func (z *sizer) cell(p *Value) {
	if z.cells[p] {
		return
	}
	z.cells[p] = true
	z.n++
	if m, ok := z.r.side[sideKey{p, "smap"}]; ok {
		if s := m.(*smapS); s.m != nil {
			z.val(Value{p: s.m})
		}
	}
	z.val(*p)
}

func ofHarness(rt *rtype) bool {
	t := rt.t
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && strings.Contains(n.Obj().Pkg().Path(), "/zzverif/")
}

func (z *sizer) val(v Value) {
	switch x := v.p.(type) {
	case string:
		z.n += len(x)
	case *symStr:
		z.n += len(x.b)
	case *agg:
		for i := range x.e {
			z.cell(&x.e[i])
		}
	case *Value:
		z.cell(x)
	case *symElem:
		for i := range x.a {
			z.cell(&x.a[i])
		}
	case *slice:
		for i := range x.a {
			z.cell(&x.a[i])
		}
	case *dataPtr:
		for i := range x.a {
			z.cell(&x.a[i])
		}
	case *mapV:
		if x == nil || z.seen(x) {
			return
		}
		for _, e := range x.ents {
			if !e.dead {
				z.n++
				z.val(e.k)
				z.val(e.v)
			}
		}
	case *chanV:
		if x == nil || z.seen(x) {
			return
		}
		z.n++
		for _, b := range x.buf {
			z.n++
			z.val(b)
		}
	case *closure:
		if x == nil || z.seen(x) || x.fn != nil && strings.Contains(pkgPathOf(x.fn), "/zzverif/") {
			return
		}
		z.n++
		for _, e := range x.env {
			z.val(e)
		}
	case *ifaceV:
		if !ofHarness(x.rt) {
			z.val(x.v)
		}
	case *rval:
		z.val(x.get())
	case *tuple:
		for _, e := range x.e {
			z.val(e)
		}
	}
}
