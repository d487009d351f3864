package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Happens-before tracking (vector clocks) for maps: two accesses of one Go
// map, at least one a write, unordered by synchronisation make the Go runtime
// abort the process.

type vclock []int32

func (v vclock) at(i int) int32 {
	if i < len(v) {
		return v[i]
	}
	return 0
}

func joinVC(a, b vclock) vclock {
	n := max(len(a), len(b))
	r := make(vclock, n)
	for i := range r {
		r[i] = max(a.at(i), b.at(i))
	}
	return r
}

func (t *thread) tick() {
	for len(t.vc) <= t.id {
		t.vc = append(t.vc, 0)
	}
	t.vc[t.id]++
}

func (t *thread) release(s any) {
	if !t.run.raceCheck {
		return
	}
	if t.run.syncVC == nil {
		t.run.syncVC = map[any]vclock{}
	}
	t.run.syncVC[s] = joinVC(t.run.syncVC[s], t.vc)
	t.vc = append(vclock{}, t.vc...)
	t.tick()
}

func (t *thread) acquire(s any) {
	if !t.run.raceCheck {
		return
	}
	if v, ok := t.run.syncVC[s]; ok {
		t.vc = joinVC(t.vc, v)
	}
}

type mapAcc struct {
	w     map[int]int32
	r     map[int]int32
	where map[int]place
}

// shadow holds the last accesses of a memory cell.
type shadow struct {
	wid, wc int32 // last write
	wWhere  place
	reads   []readAcc // since the last write
}

// place is a position in the code, formatted when it is reported.
type place [4]struct {
	cf  *cfunc
	pos token.Pos
}

func (t *thread) place() (p place) {
	fr := t.top
	for i := range p {
		if fr == nil {
			break
		}
		p[i].cf, p[i].pos = fr.cf, fr.pos
		fr = fr.caller
	}
	return
}

func (p place) String(r *Run) string {
	s := ""
	for _, x := range p {
		if x.cf == nil {
			break
		}
		if s != "" {
			s += " <- "
		}
		s += x.cf.name
		if x.pos != token.NoPos {
			pp := r.eng.prog.fset.Position(x.pos)
			s += fmt.Sprintf(" %s:%d", shortFile(pp.Filename), pp.Line)
		}
	}
	return s
}

type readAcc struct {
	id, c int32
	where place
}

// raceTracked tells whether a function's memory accesses are recorded: all
// but those of the harnesses, whose threads are ordered by virtual time, and
// of the packages below the modelled synchronisation.
func raceTracked(fn *ssa.Function) bool {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg == nil {
		return false
	}
	p := fn.Pkg.Pkg.Path()
	switch {
	case strings.Contains(p, "/zzverif"), p == "sync", p == "sync/atomic", p == "runtime", p == "reflect", p == "unsafe", p == "time", strings.HasPrefix(p, "internal/"), strings.HasPrefix(p, "runtime/"):
		return false
	}
	return true
}

// isLocal tells whether an address is of a variable that does not escape.
func isLocal(v ssa.Value) bool {
	for {
		switch x := v.(type) {
		case *ssa.Alloc:
			return !x.Heap
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			if _, ok := x.X.Type().Underlying().(*types.Pointer); !ok {
				return false
			}
			v = x.X
		default:
			return false
		}
	}
}

// memAccess records an access of a memory cell and reports a data race.
func (t *thread) memAccess(p *Value, write bool) {
	r := t.run
	if r.inInit > 0 || len(r.threads) < 2 {
		return
	}
	if len(t.vc) <= t.id {
		t.tick()
	}
	t.cellAccess(p, write)
}

func (t *thread) cellAccess(p *Value, write bool) {
	if a, ok := p.p.(*agg); ok {
		if len(a.e) > 64 {
			return
		}
		for i := range a.e {
			t.cellAccess(&a.e[i], write)
		}
		return
	}
	r := t.run
	if r.cells == nil {
		r.cells = map[*Value]*shadow{}
	}
	s := r.cells[p]
	id, now := int32(t.id), t.vc.at(t.id)
	if s == nil {
		s = &shadow{wid: -1}
		r.cells[p] = s
	}
	if s.wid >= 0 && s.wid != id && s.wc > t.vc.at(int(s.wid)) {
		t.violation("race", "data race: access unordered with the write at "+s.wWhere.String(t.run))
	}
	if !write {
		for i := range s.reads {
			if s.reads[i].id == id {
				s.reads[i].c = now
				return
			}
		}
		s.reads = append(s.reads, readAcc{id, now, t.place()})
		return
	}
	for _, a := range s.reads {
		if a.id != id && a.c > t.vc.at(int(a.id)) {
			t.violation("race", "data race: write unordered with the read at "+a.where.String(t.run))
		}
	}
	s.reads = s.reads[:0]
	if s.wid != id {
		s.wWhere = t.place()
	}
	s.wid, s.wc = id, now
}

// joinAll orders a thread after everything so far.
func (t *thread) joinAll() {
	if !t.run.raceCheck {
		return
	}
	for _, o := range t.run.threads {
		if o != t {
			t.vc = joinVC(t.vc, o.vc)
			// what they do from now on is later
			o.vc = append(vclock{}, o.vc...)
			o.tick()
		}
	}
}

func (t *thread) mapAccess(m *mapV, write bool) {
	r := t.run
	if m == nil || !r.raceCheck || r.inInit > 0 || t.top != nil && strings.Contains(t.top.cf.name, "/zzverif/") {
		return
	}
	if len(r.threads) < 2 {
		return
	}
	if r.mapAcc == nil {
		r.mapAcc = map[*mapV]*mapAcc{}
	}
	a := r.mapAcc[m]
	if a == nil {
		a = &mapAcc{w: map[int]int32{}, r: map[int]int32{}, where: map[int]place{}}
		r.mapAcc[m] = a
	}
	if len(t.vc) <= t.id {
		t.tick()
	}
	for id, c := range a.w {
		if id != t.id && c > t.vc.at(id) {
			t.violation("race", fmt.Sprintf("fatal error: concurrent map access, unordered with the write at %s", a.where[id].String(t.run)))
		}
	}
	if write {
		for id, c := range a.r {
			if id != t.id && c > t.vc.at(id) {
				t.violation("race", fmt.Sprintf("fatal error: concurrent map write, unordered with the read at %s", a.where[id].String(t.run)))
			}
		}
		a.w[t.id] = t.vc.at(t.id)
	} else {
		a.r[t.id] = t.vc.at(t.id)
	}
	if _, ok := a.where[t.id]; !ok {
		a.where[t.id] = t.place()
	}
	t.point()
}
