package main

import (
	"encoding/binary"
	"fmt"
	"math"
	"math/bits"
	"sort"
	"strings"
)

// Op is the operator of a term.
type Op uint8

const (
	OConst Op = iota
	OVar
	OAdd
	OSub
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OAnd
	OOr
	OXor
	ONot
	OShl
	OLshr
	OAshr
	OConcat
	OExtract
	OSExt
	OIte
	OTable
	OLin
	OUF
	OF32to64
	OF64to32
	// boolean
	OEq
	OUlt
	OSlt
	OBNot
	OBAnd
	OBOr
)

var opNames = [...]string{"const", "var", "bvadd", "bvsub", "bvmul", "bvudiv", "bvurem", "bvsdiv", "bvsrem", "bvand", "bvor", "bvxor", "bvnot", "bvshl", "bvlshr", "bvashr", "concat", "extract", "sext", "ite", "table", "lin", "uf", "f32to64", "f64to32", "=", "bvult", "bvslt", "not", "and", "or"}

// Term is a hash-consed bit-vector (w>0) or boolean (w==0) expression.
type Term struct {
	op     Op
	w      int // 0 = Bool
	id     int
	k      uint64 // constant value / extract low bit
	args   []*Term
	name   string     // var / UF name
	tab    []uint64   // OTable contents
	cols   [][]uint64 // OLin: per arg, per bit column
	lo, hi uint64     // unsigned interval
	vars   []int32    // sorted var ids (lazily)
	hasV   bool
	evGen  int
	evVal  uint64
	emit   int // solver generation in which it was defined
	size   int
}

func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

func sext(v uint64, w int) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := uint(64 - w)
	return int64(v<<sh) >> sh
}

// Factory owns a set of terms. It is not safe for concurrent use.
type Factory struct {
	tab    map[string]*Term
	nextID int
	vars   []*Term
	varIdx map[string]*Term
	True   *Term
	False  *Term
	gen    int // evaluation generation
	model  map[string]uint64
	keybuf []byte
	lins   map[string]bool
}

func NewFactory() *Factory {
	f := &Factory{tab: map[string]*Term{}, varIdx: map[string]*Term{}}
	f.False = f.Const(0, 0)
	f.True = f.Const(0, 1)
	f.gen = 1
	f.model = map[string]uint64{}
	return f
}

func (f *Factory) mk(t Term) *Term {
	b := f.keybuf[:0]
	b = append(b, byte(t.op), byte(t.w))
	b = binary.AppendUvarint(b, t.k)
	for _, a := range t.args {
		b = binary.AppendUvarint(b, uint64(a.id))
	}
	if t.name != "" {
		b = append(b, 0xff)
		b = append(b, t.name...)
	}
	if t.tab != nil {
		for _, v := range t.tab {
			b = binary.AppendUvarint(b, v)
		}
	}
	for _, c := range t.cols {
		b = append(b, 0xfe)
		for _, v := range c {
			b = binary.AppendUvarint(b, v)
		}
	}
	f.keybuf = b
	if x, ok := f.tab[string(b)]; ok {
		return x
	}
	nt := new(Term)
	*nt = t
	nt.id = f.nextID
	f.nextID++
	nt.size = 1
	for _, a := range t.args {
		nt.size += a.size
		if nt.size > 1<<30 {
			nt.size = 1 << 30
		}
	}
	f.interval(nt)
	f.tab[string(b)] = nt
	return nt
}

func (f *Factory) interval(t *Term) {
	m := mask(t.w)
	if t.w == 0 {
		t.lo, t.hi = 0, 1
		if t.op == OConst {
			t.lo, t.hi = t.k, t.k
		}
		return
	}
	t.lo, t.hi = 0, m
	switch t.op {
	case OConst:
		t.lo, t.hi = t.k, t.k
	case OAdd:
		a, b := t.args[0], t.args[1]
		s, c := bits.Add64(a.hi, b.hi, 0)
		if c == 0 && s <= m {
			t.lo, t.hi = a.lo+b.lo, s
		}
	case OSub:
		a, b := t.args[0], t.args[1]
		if a.lo >= b.hi {
			t.lo, t.hi = a.lo-b.hi, a.hi-b.lo
		}
	case OMul:
		a, b := t.args[0], t.args[1]
		h, l := bits.Mul64(a.hi, b.hi)
		if h == 0 && l <= m {
			t.lo, t.hi = a.lo*b.lo, l
		}
	case OUDiv:
		b := t.args[1]
		if b.lo > 0 {
			t.lo, t.hi = t.args[0].lo/b.hi, t.args[0].hi/b.lo
		}
	case OURem:
		b := t.args[1]
		if b.lo > 0 {
			t.hi = b.hi - 1
			if t.args[0].hi < t.hi {
				t.hi = t.args[0].hi
			}
		}
	case OAnd:
		t.hi = min(t.args[0].hi, t.args[1].hi)
	case OOr:
		t.lo = max(t.args[0].lo, t.args[1].lo)
		t.hi = min(m, mask(max(bits.Len64(t.args[0].hi), bits.Len64(t.args[1].hi))))
	case OXor:
		t.hi = min(m, mask(max(bits.Len64(t.args[0].hi), bits.Len64(t.args[1].hi))))
	case OConcat:
		var lo, hi uint64
		for _, a := range t.args {
			lo = lo<<uint(a.w) | a.lo
			hi = hi<<uint(a.w) | a.hi
		}
		t.lo, t.hi = lo, hi
	case OExtract:
		if t.k == 0 && t.args[0].hi <= m {
			t.lo, t.hi = t.args[0].lo, t.args[0].hi
		} else if t.k > 0 && int(t.k)+t.w == t.args[0].w {
			t.lo, t.hi = t.args[0].lo>>t.k, t.args[0].hi>>t.k
		}
	case OIte:
		t.lo = min(t.args[1].lo, t.args[2].lo)
		t.hi = max(t.args[1].hi, t.args[2].hi)
	case OTable:
		lo, hi := ^uint64(0), uint64(0)
		for i, v := range t.tab {
			if uint64(i) < t.args[0].lo || uint64(i) > t.args[0].hi {
				continue
			}
			lo = min(lo, v)
			hi = max(hi, v)
		}
		if lo <= hi {
			t.lo, t.hi = lo, hi
		}
	case OLshr:
		t.hi = t.args[0].hi >> min(63, t.args[1].lo)
	}
}

func (f *Factory) Const(w int, v uint64) *Term {
	if w == 0 {
		if v != 0 {
			v = 1
		}
	} else {
		v &= mask(w)
	}
	return f.mk(Term{op: OConst, w: w, k: v})
}

func (f *Factory) Bool(b bool) *Term {
	if b {
		return f.True
	}
	return f.False
}

func (f *Factory) Var(name string, w int) *Term {
	if t, ok := f.varIdx[name]; ok {
		if t.w != w {
			panic(fmt.Sprintf("variable %s used with widths %d and %d", name, t.w, w))
		}
		return t
	}
	t := f.mk(Term{op: OVar, w: w, name: name})
	t.vars = []int32{int32(len(f.vars))}
	t.hasV = true
	f.vars = append(f.vars, t)
	f.varIdx[name] = t
	return t
}

func (t *Term) isC() bool { return t.op == OConst }

// Vars returns sorted variable ids of the term.
func (f *Factory) Vars(t *Term) []int32 {
	if t.hasV {
		return t.vars
	}
	switch len(t.args) {
	case 0:
	case 1:
		t.vars = f.Vars(t.args[0])
	default:
		var acc []int32
		for _, a := range t.args {
			v := f.Vars(a)
			if len(v) == 0 {
				continue
			}
			if len(acc) == 0 {
				acc = v
				continue
			}
			acc = mergeVars(acc, v)
		}
		t.vars = acc
	}
	t.hasV = true
	return t.vars
}

func mergeVars(a, b []int32) []int32 {
	// fast subset check
	i, j := 0, 0
	r := make([]int32, 0, len(a)+len(b))
	for i < len(a) && j < len(b) {
		switch {
		case a[i] < b[j]:
			r = append(r, a[i])
			i++
		case a[i] > b[j]:
			r = append(r, b[j])
			j++
		default:
			r = append(r, a[i])
			i++
			j++
		}
	}
	r = append(r, a[i:]...)
	r = append(r, b[j:]...)
	if len(r) == len(a) {
		return a
	}
	if len(r) == len(b) {
		return b
	}
	return r
}

// ---- bit-vector constructors ----

func segs(t *Term) []*Term {
	if t.op == OConcat {
		return t.args
	}
	return []*Term{t}
}

// Concat builds the concatenation, most significant first.
func (f *Factory) Concat(parts ...*Term) *Term {
	var out []*Term
	for _, p := range parts {
		for _, s := range segs(p) {
			if s.w == 0 {
				panic("concat of bool")
			}
			if n := len(out); n > 0 {
				l := out[n-1]
				if l.isC() && s.isC() {
					out[n-1] = f.Const(l.w+s.w, l.k<<uint(s.w)|s.k)
					continue
				}
				lb, llo := l, 0
				if l.op == OExtract {
					lb, llo = l.args[0], int(l.k)
				}
				sb, slo := s, 0
				if s.op == OExtract {
					sb, slo = s.args[0], int(s.k)
				}
				if lb == sb && llo == slo+s.w && (l.op == OExtract) {
					out[n-1] = f.Extract(lb, slo, l.w+s.w)
					continue
				}
			}
			out = append(out, s)
		}
	}
	if len(out) == 1 {
		return out[0]
	}
	w := 0
	for _, s := range out {
		w += s.w
	}
	if w > 64 {
		panic("concat too wide")
	}
	// all segments linear? merge into a Lin
	anyLin := false
	ok := true
	for _, s := range out {
		if s.op == OLin {
			anyLin = true
		} else if !s.isC() {
			ok = false
		}
	}
	if anyLin && ok {
		r := f.Const(w, 0)
		sh := w
		for _, s := range out {
			sh -= s.w
			r = f.linXor(r, f.linMap(s, w, func(v uint64) uint64 { return v << uint(sh) }))
		}
		return r
	}
	return f.mk(Term{op: OConcat, w: w, args: out})
}

func (f *Factory) Extract(t *Term, lo, w int) *Term {
	if w <= 0 || lo < 0 || lo+w > t.w {
		panic(fmt.Sprintf("bad extract lo=%d w=%d of %d", lo, w, t.w))
	}
	if lo == 0 && w == t.w {
		return t
	}
	switch t.op {
	case OConst:
		return f.Const(w, t.k>>uint(lo))
	case OExtract:
		return f.Extract(t.args[0], int(t.k)+lo, w)
	case OConcat:
		var out []*Term
		pos := t.w
		for _, s := range t.args {
			pos -= s.w // s occupies [pos, pos+s.w)
			l := max(lo, pos)
			h := min(lo+w, pos+s.w)
			if l < h {
				out = append(out, f.Extract(s, l-pos, h-l))
			}
		}
		return f.Concat(out...)
	case OSExt:
		b := t.args[0]
		if lo+w <= b.w {
			return f.Extract(b, lo, w)
		}
	case OAnd, OOr, OXor:
		return f.bitop(t.op, f.Extract(t.args[0], lo, w), f.Extract(t.args[1], lo, w))
	case ONot:
		return f.Not(f.Extract(t.args[0], lo, w))
	case OAdd, OSub, OMul:
		if lo == 0 {
			a, b := f.Extract(t.args[0], 0, w), f.Extract(t.args[1], 0, w)
			switch t.op {
			case OAdd:
				return f.Add(a, b)
			case OSub:
				return f.Sub(a, b)
			default:
				return f.Mul(a, b)
			}
		}
	case OIte:
		if (t.args[1].isC() || t.args[2].isC()) || (t.args[1].size < 8 && t.args[2].size < 8) {
			return f.Ite(t.args[0], f.Extract(t.args[1], lo, w), f.Extract(t.args[2], lo, w))
		}
	case OTable:
		nt := make([]uint64, len(t.tab))
		for i, v := range t.tab {
			nt[i] = v >> uint(lo) & mask(w)
		}
		return f.Table(nt, t.args[0], w)
	case OLin:
		return f.linMap(t, w, func(v uint64) uint64 { return v >> uint(lo) & mask(w) })
	}
	if t.hi < 1<<63 && lo > 0 && (uint64(1)<<uint(lo)) > t.hi {
		return f.Const(w, 0)
	}
	// value known small: high bits zero
	if n := bits.Len64(t.hi); n < lo+w && n > lo {
		hiw := lo + w - n
		return f.Concat(f.Const(hiw, 0), f.mk(Term{op: OExtract, w: n - lo, k: uint64(lo), args: []*Term{t}}))
	}
	return f.mk(Term{op: OExtract, w: w, k: uint64(lo), args: []*Term{t}})
}

func (f *Factory) ZExt(t *Term, w int) *Term {
	if w == t.w {
		return t
	}
	if w < t.w {
		return f.Extract(t, 0, w)
	}
	return f.Concat(f.Const(w-t.w, 0), t)
}

func topZero(t *Term) int {
	switch t.op {
	case OConst:
		return t.w - bits.Len64(t.k)
	case OConcat:
		if t.args[0].isC() {
			c := t.args[0]
			return c.w - bits.Len64(c.k)
		}
	}
	return t.w - bits.Len64(t.hi)
}

func (f *Factory) SExt(t *Term, w int) *Term {
	if w == t.w {
		return t
	}
	if w < t.w {
		return f.Extract(t, 0, w)
	}
	if t.isC() {
		return f.Const(w, uint64(sext(t.k, t.w)))
	}
	if topZero(t) > 0 {
		return f.ZExt(t, w)
	}
	if t.op == OSExt {
		return f.SExt(t.args[0], w)
	}
	if t.op == OIte && t.args[1].isC() && t.args[2].isC() {
		return f.Ite(t.args[0], f.SExt(t.args[1], w), f.SExt(t.args[2], w))
	}
	return f.mk(Term{op: OSExt, w: w, args: []*Term{t}})
}

func (f *Factory) Not(t *Term) *Term {
	if t.isC() {
		return f.Const(t.w, ^t.k)
	}
	if t.op == ONot {
		return t.args[0]
	}
	if t.op == OLin {
		return f.linXor(t, f.Const(t.w, ^uint64(0)))
	}
	if t.op == OConcat {
		out := make([]*Term, len(t.args))
		for i, s := range t.args {
			out[i] = f.Not(s)
		}
		return f.Concat(out...)
	}
	return f.mk(Term{op: ONot, w: t.w, args: []*Term{t}})
}

func (f *Factory) Neg(t *Term) *Term { return f.Sub(f.Const(t.w, 0), t) }

// splitCommon splits a and b at common segment boundaries (high to low).
func (f *Factory) splitCommon(a, b *Term) ([]*Term, []*Term) {
	cut := map[int]bool{}
	for _, t := range []*Term{a, b} {
		pos := t.w
		for _, s := range segs(t) {
			pos -= s.w
			// constants: cut at run boundaries of uniform bits
			if s.isC() {
				for i := 1; i < s.w; i++ {
					if (s.k>>uint(i))&1 != (s.k>>uint(i-1))&1 {
						cut[pos+i] = true
					}
				}
			}
			if pos > 0 {
				cut[pos] = true
			}
		}
	}
	var cs []int
	for c := range cut {
		cs = append(cs, c)
	}
	sort.Sort(sort.Reverse(sort.IntSlice(cs)))
	cs = append(cs, 0)
	var as, bs []*Term
	top := a.w
	for _, c := range cs {
		as = append(as, f.Extract(a, c, top-c))
		bs = append(bs, f.Extract(b, c, top-c))
		top = c
	}
	return as, bs
}

func (f *Factory) And(a, b *Term) *Term { return f.bitop(OAnd, a, b) }
func (f *Factory) Or(a, b *Term) *Term  { return f.bitop(OOr, a, b) }
func (f *Factory) Xor(a, b *Term) *Term { return f.bitop(OXor, a, b) }

func (f *Factory) bitop(op Op, a, b *Term) *Term {
	if a.w != b.w {
		panic("bitop width mismatch")
	}
	if a.isC() && b.isC() {
		switch op {
		case OAnd:
			return f.Const(a.w, a.k&b.k)
		case OOr:
			return f.Const(a.w, a.k|b.k)
		default:
			return f.Const(a.w, a.k^b.k)
		}
	}
	if a == b {
		if op == OXor {
			return f.Const(a.w, 0)
		}
		return a
	}
	if a.isC() {
		a, b = b, a
	}
	m := mask(a.w)
	if b.isC() {
		switch op {
		case OAnd:
			if b.k == 0 {
				return b
			}
			if b.k == m {
				return a
			}
		case OOr:
			if b.k == 0 {
				return a
			}
			if b.k == m {
				return b
			}
		case OXor:
			if b.k == 0 {
				return a
			}
			if b.k == m && a.op != OLin {
				return f.Not(a)
			}
		}
	}
	if (op == OAnd || op == OOr) && (a.op == ONot && a.args[0] == b || b.op == ONot && b.args[0] == a) {
		if op == OAnd {
			return f.Const(a.w, 0)
		}
		return f.Const(a.w, m)
	}
	if op == OXor && (a.op == OLin || b.op == OLin) {
		if r := f.linXor(a, b); r != nil {
			return r
		}
	}
	if op == OOr && (a.op == OLin || b.op == OLin) {
		if nzMask(a)&nzMask(b) == 0 {
			return f.linXor(a, b)
		}
		if b.isC() {
			return f.linXor(f.linMap(a, a.w, func(v uint64) uint64 { return v &^ b.k }), b)
		}
	}
	if op == OAnd && a.op == OLin && b.isC() {
		return f.linMap(a, a.w, func(v uint64) uint64 { return v & b.k })
	}
	if op == OXor {
		// cancel x ^ (x ^ y)
		for i := 0; i < 2; i++ {
			if a.op == OXor {
				if a.args[0] == b {
					return a.args[1]
				}
				if a.args[1] == b {
					return a.args[0]
				}
				if b.isC() && a.args[1].isC() {
					return f.Xor(a.args[0], f.Const(a.w, a.args[1].k^b.k))
				}
			}
			a, b = b, a
		}
		if a.isC() {
			a, b = b, a
		}
	}
	// split when segments are known
	if a.w > 1 && (a.op == OConcat || b.op == OConcat || (b.isC() && op != OXor)) {
		as, bs := f.splitCommon(a, b)
		if len(as) > 1 {
			out := make([]*Term, len(as))
			for i := range as {
				out[i] = f.bitop(op, as[i], bs[i])
			}
			return f.Concat(out...)
		}
	}
	if a.op == OIte && a.args[1].isC() && a.args[2].isC() && b.isC() {
		return f.Ite(a.args[0], f.bitop(op, a.args[1], b), f.bitop(op, a.args[2], b))
	}
	if b.id < a.id && !b.isC() {
		a, b = b, a
	}
	return f.mk(Term{op: op, w: a.w, args: []*Term{a, b}})
}

// nzMask has every bit that may be set in t.
func nzMask(t *Term) uint64 {
	switch t.op {
	case OConst:
		return t.k
	case OLin:
		m := t.k
		for _, c := range t.cols {
			for _, v := range c {
				m |= v
			}
		}
		return m & mask(t.w)
	case OConcat:
		var m uint64
		for _, s := range t.args {
			m = m<<uint(s.w) | nzMask(s)
		}
		return m
	}
	return mask(t.w)
}

func (f *Factory) Add(a, b *Term) *Term {
	if a.isC() && b.isC() {
		return f.Const(a.w, a.k+b.k)
	}
	if (a.op == OLin || b.op == OLin) && nzMask(a)&nzMask(b) == 0 {
		return f.linXor(a, b)
	}
	if a.isC() {
		a, b = b, a
	}
	if b.isC() {
		if b.k == 0 {
			return a
		}
		if a.op == OAdd && a.args[1].isC() {
			return f.Add(a.args[0], f.Const(a.w, a.args[1].k+b.k))
		}
		if a.op == OSub && a.args[0].isC() {
			return f.Sub(f.Const(a.w, a.args[0].k+b.k), a.args[1])
		}
		if a.op == OIte && a.args[1].isC() && a.args[2].isC() {
			return f.Ite(a.args[0], f.Add(a.args[1], b), f.Add(a.args[2], b))
		}
	}
	// x - y + y
	if a.op == OSub && a.args[1] == b {
		return a.args[0]
	}
	if b.op == OSub && b.args[1] == a {
		return b.args[0]
	}
	// disjoint bits -> or
	if a.op == OConcat || b.op == OConcat {
		as, bs := f.splitCommon(a, b)
		ok := true
		for i := range as {
			if !(as[i].isC() && as[i].k == 0 || bs[i].isC() && bs[i].k == 0) {
				ok = false
				break
			}
		}
		if ok {
			return f.Or(a, b)
		}
	}
	// narrow the addition when both have many leading zeros
	if z := min(topZero(a), topZero(b)) - 1; z > 0 && a.w-z > 0 && (a.op == OConcat || b.op == OConcat) {
		n := a.w - z
		return f.Concat(f.Const(z, 0), f.mkAdd(f.Extract(a, 0, n), f.Extract(b, 0, n)))
	}
	return f.mkAdd(a, b)
}

func (f *Factory) mkAdd(a, b *Term) *Term {
	if a.isC() && b.isC() {
		return f.Const(a.w, a.k+b.k)
	}
	if a.isC() || (b.id < a.id && !b.isC()) {
		a, b = b, a
	}
	// (x + c) + y -> (x + y) + c
	if a.op == OAdd && a.args[1].isC() && !b.isC() {
		return f.Add(f.Add(a.args[0], b), a.args[1])
	}
	if b.op == OAdd && b.args[1].isC() && !a.isC() {
		return f.Add(f.Add(a, b.args[0]), b.args[1])
	}
	return f.mk(Term{op: OAdd, w: a.w, args: []*Term{a, b}})
}

func (f *Factory) Sub(a, b *Term) *Term {
	if a.isC() && b.isC() {
		return f.Const(a.w, a.k-b.k)
	}
	if a == b {
		return f.Const(a.w, 0)
	}
	if b.isC() {
		return f.Add(a, f.Const(a.w, -b.k))
	}
	if a.op == OAdd {
		if a.args[0] == b {
			return a.args[1]
		}
		if a.args[1] == b {
			return a.args[0]
		}
		if a.args[1].isC() {
			return f.Add(f.Sub(a.args[0], b), a.args[1])
		}
	}
	if b.op == OAdd {
		if b.args[1].isC() {
			return f.Add(f.Sub(a, b.args[0]), f.Const(a.w, -b.args[1].k))
		}
		if b.args[0] == a {
			return f.Sub(f.Const(a.w, 0), b.args[1])
		}
		if b.args[1] == a {
			return f.Sub(f.Const(a.w, 0), b.args[0])
		}
	}
	if b.op == OSub && a.isC() && b.args[0].isC() {
		return f.Add(b.args[1], f.Const(a.w, a.k-b.args[0].k))
	}
	return f.mk(Term{op: OSub, w: a.w, args: []*Term{a, b}})
}

func (f *Factory) Mul(a, b *Term) *Term {
	if a.isC() && b.isC() {
		return f.Const(a.w, a.k*b.k)
	}
	if a.isC() {
		a, b = b, a
	}
	if b.isC() {
		if b.k == 0 {
			return b
		}
		if b.k == 1 {
			return a
		}
		if b.k&(b.k-1) == 0 {
			return f.Shl(a, f.Const(a.w, uint64(bits.TrailingZeros64(b.k))))
		}
		if (a.op == OUDiv || a.op == OSDiv) && a.args[1] == b {
			// (x/c)*c = x - x%c
			if a.op == OUDiv {
				return f.Sub(a.args[0], f.URem(a.args[0], b))
			}
			return f.Sub(a.args[0], f.SRem(a.args[0], b))
		}
		if nz := nzMask(a); nz&(nz-1) == 0 && nz != 0 {
			// one bit times a constant
			pos := bits.TrailingZeros64(nz)
			k := b.k << uint(pos)
			return f.linMap(f.Extract(a, pos, 1), a.w, func(v uint64) uint64 { return v * k & mask(a.w) })
		}
		if a.op == OMul && a.args[1].isC() {
			return f.Mul(a.args[0], f.Const(a.w, a.args[1].k*b.k))
		}
	} else if b.id < a.id {
		a, b = b, a
	}
	return f.mk(Term{op: OMul, w: a.w, args: []*Term{a, b}})
}

func (f *Factory) UDiv(a, b *Term) *Term {
	if b.isC() {
		if b.k == 1 {
			return a
		}
		if b.k != 0 {
			if a.isC() {
				return f.Const(a.w, a.k/b.k)
			}
			if b.k&(b.k-1) == 0 {
				return f.Lshr(a, f.Const(a.w, uint64(bits.TrailingZeros64(b.k))))
			}
			if a.hi < b.k {
				return f.Const(a.w, 0)
			}
		}
	}
	return f.mk(Term{op: OUDiv, w: a.w, args: []*Term{a, b}})
}

func (f *Factory) URem(a, b *Term) *Term {
	if b.isC() && b.k != 0 {
		if a.isC() {
			return f.Const(a.w, a.k%b.k)
		}
		if b.k&(b.k-1) == 0 {
			return f.And(a, f.Const(a.w, b.k-1))
		}
		if a.hi < b.k {
			return a
		}
	}
	return f.mk(Term{op: OURem, w: a.w, args: []*Term{a, b}})
}

func nonneg(t *Term) bool { return topZero(t) > 0 }

func (f *Factory) SDiv(a, b *Term) *Term {
	if a.isC() && b.isC() && b.k != 0 {
		x, y := sext(a.k, a.w), sext(b.k, b.w)
		if y == -1 {
			return f.Const(a.w, uint64(-x))
		}
		return f.Const(a.w, uint64(x/y))
	}
	if nonneg(a) && nonneg(b) {
		return f.UDiv(a, b)
	}
	if b.isC() && b.k == 1 {
		return a
	}
	return f.mk(Term{op: OSDiv, w: a.w, args: []*Term{a, b}})
}

func (f *Factory) SRem(a, b *Term) *Term {
	if a.isC() && b.isC() && b.k != 0 {
		x, y := sext(a.k, a.w), sext(b.k, b.w)
		if y == -1 {
			return f.Const(a.w, 0)
		}
		return f.Const(a.w, uint64(x%y))
	}
	if nonneg(a) && nonneg(b) {
		return f.URem(a, b)
	}
	return f.mk(Term{op: OSRem, w: a.w, args: []*Term{a, b}})
}

// Shl, Lshr, Ashr: both operands have the same width; amounts >= width give 0
// (or the sign), as in SMT-LIB and Go.
func (f *Factory) Shl(a, b *Term) *Term {
	if b.isC() {
		if b.k == 0 {
			return a
		}
		if b.k >= uint64(a.w) {
			return f.Const(a.w, 0)
		}
		n := int(b.k)
		return f.Concat(f.Extract(a, 0, a.w-n), f.Const(n, 0))
	}
	if a.isC() && a.k == 0 {
		return a
	}
	return f.mk(Term{op: OShl, w: a.w, args: []*Term{a, b}})
}

func (f *Factory) Lshr(a, b *Term) *Term {
	if b.isC() {
		if b.k == 0 {
			return a
		}
		if b.k >= uint64(a.w) {
			return f.Const(a.w, 0)
		}
		n := int(b.k)
		return f.Concat(f.Const(n, 0), f.Extract(a, n, a.w-n))
	}
	if a.isC() && a.k == 0 {
		return a
	}
	return f.mk(Term{op: OLshr, w: a.w, args: []*Term{a, b}})
}

func (f *Factory) Ashr(a, b *Term) *Term {
	if nonneg(a) {
		return f.Lshr(a, b)
	}
	if b.isC() {
		n := int(min(b.k, uint64(a.w-1)))
		if n == 0 {
			return a
		}
		return f.SExt(f.Extract(a, n, a.w-n), a.w)
	}
	return f.mk(Term{op: OAshr, w: a.w, args: []*Term{a, b}})
}

func (f *Factory) Ite(c, a, b *Term) *Term {
	if c.isC() {
		if c.k != 0 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.w != b.w {
		panic("ite width mismatch")
	}
	if c.op == OBNot {
		return f.Ite(c.args[0], b, a)
	}
	if a.w == 0 {
		if a.isC() {
			if a.k != 0 {
				return f.BOr(c, b)
			}
			return f.BAnd(f.BNot(c), b)
		}
		if b.isC() {
			if b.k != 0 {
				return f.BOr(f.BNot(c), a)
			}
			return f.BAnd(c, a)
		}
	}
	if a.op == OIte && a.args[0] == c {
		a = a.args[1]
	}
	if b.op == OIte && b.args[0] == c {
		b = b.args[2]
	}
	if a == b {
		return a
	}
	// share common leading/trailing segments
	if a.w > 1 && (a.op == OConcat || b.op == OConcat) {
		as, bs := f.splitCommon(a, b)
		same := 0
		for i := range as {
			if as[i] == bs[i] {
				same++
			}
		}
		if same > 0 {
			out := make([]*Term, len(as))
			for i := range as {
				out[i] = f.Ite(c, as[i], bs[i])
			}
			return f.Concat(out...)
		}
	}
	return f.mk(Term{op: OIte, w: a.w, args: []*Term{c, a, b}})
}

// Table builds tab[idx]; idx must be known to be < len(tab).
func (f *Factory) Table(tab []uint64, idx *Term, w int) *Term {
	if idx.isC() {
		if idx.k < uint64(len(tab)) {
			return f.Const(w, tab[idx.k])
		}
		return f.Const(w, 0)
	}
	allSame := true
	for i := range tab {
		if tab[i] != tab[0] {
			allSame = false
			break
		}
	}
	if len(tab) > 0 && allSame {
		return f.Const(w, tab[0])
	}
	// strip leading zero bits of the index
	if n := bits.Len64(idx.hi); n < idx.w && n > 0 {
		idx = f.Extract(idx, 0, n)
	}
	// normalise the table length to the index width when small
	if idx.w <= 12 {
		n := 1 << uint(idx.w)
		if len(tab) > n {
			tab = tab[:n]
		} else if len(tab) < n {
			nt := make([]uint64, n)
			copy(nt, tab)
			tab = nt
		}
		ident := true
		for i, v := range tab {
			if v != uint64(i) {
				ident = false
				break
			}
		}
		if ident {
			return f.ZExt(idx, w)
		}
		if idx.op == OTable {
			nt := make([]uint64, len(idx.tab))
			for i, v := range idx.tab {
				nt[i] = tab[v&uint64(n-1)]
			}
			return f.Table(nt, idx.args[0], w)
		}
		if idx.w >= 3 {
			if cols, k, ok := affine(tab, idx.w); ok {
				return f.linApply(idx, w, cols, k)
			}
		}
	}
	return f.mk(Term{op: OTable, w: w, tab: tab, args: []*Term{idx}})
}

// affine reports whether tab is an affine GF(2) map.
func affine(tab []uint64, iw int) ([]uint64, uint64, bool) {
	cols := make([]uint64, iw)
	for i := range cols {
		cols[i] = tab[1<<uint(i)] ^ tab[0]
	}
	for i, v := range tab {
		x := tab[0]
		for j := range cols {
			if i>>uint(j)&1 != 0 {
				x ^= cols[j]
			}
		}
		if x != v {
			return nil, 0, false
		}
	}
	return cols, tab[0], true
}

type linTerm struct {
	m map[*Term][]uint64
	k uint64
}

// lin decomposes t into its linear normal form.
func (f *Factory) linOf(t *Term) linTerm {
	r := linTerm{m: map[*Term][]uint64{}}
	f.linAdd(&r, t, 0)
	return r
}

func (f *Factory) linAdd(r *linTerm, t *Term, sh int) {
	switch t.op {
	case OConst:
		r.k ^= t.k << uint(sh)
		return
	case OLin:
		r.k ^= t.k << uint(sh)
		for i, a := range t.args {
			c := r.col(a)
			for j, v := range t.cols[i] {
				c[j] ^= v << uint(sh)
			}
		}
		return
	case OXor:
		f.linAdd(r, t.args[0], sh)
		f.linAdd(r, t.args[1], sh)
		return
	case ONot:
		r.k ^= mask(t.w) << uint(sh)
		f.linAdd(r, t.args[0], sh)
		return
	case OConcat:
		pos := t.w
		for _, s := range t.args {
			pos -= s.w
			f.linAdd(r, s, sh+pos)
		}
		return
	case OExtract:
		b := t.args[0]
		c := r.col(b)
		for j := 0; j < t.w; j++ {
			c[j+int(t.k)] ^= uint64(1) << uint(sh+j)
		}
		return
	case OIte:
		if t.w >= 1 && t.args[1].isC() && t.args[2].isC() {
			// ite(c,a,b) = b ^ (c?(a^b):0), c as a 1-bit atom
			if t.w == 1 && t.args[1].k == 1 {
				break
			}
			bit := f.Ite(t.args[0], f.Const(1, 1), f.Const(1, 0))
			r.k ^= t.args[2].k << uint(sh)
			c := r.col(bit)
			c[0] ^= (t.args[1].k ^ t.args[2].k) << uint(sh)
			return
		}
	}
	c := r.col(t)
	for j := 0; j < t.w; j++ {
		c[j] ^= uint64(1) << uint(sh+j)
	}
}

func (r *linTerm) col(t *Term) []uint64 {
	c, ok := r.m[t]
	if !ok {
		c = make([]uint64, t.w)
		r.m[t] = c
	}
	return c
}

func (f *Factory) linMk(r linTerm, w int) *Term {
	var args []*Term
	for a, c := range r.m {
		nz := false
		for j := range c {
			c[j] &= mask(w)
			if c[j] != 0 {
				nz = true
			}
		}
		if nz {
			args = append(args, a)
		}
	}
	r.k &= mask(w)
	if len(args) == 0 {
		return f.Const(w, r.k)
	}
	sort.Slice(args, func(i, j int) bool { return args[i].id < args[j].id })
	if len(args) == 1 {
		// identity or shifted selection -> concat form
		a := args[0]
		c := r.m[a]
		if t := f.linSelect(a, c, r.k, w); t != nil {
			return t
		}
	}
	cols := make([][]uint64, len(args))
	for i, a := range args {
		cols[i] = r.m[a]
	}
	return f.mk(Term{op: OLin, w: w, k: r.k, args: args, cols: cols})
}

// linSelect recognises maps in which every output bit is at most one input
// bit, in order (a pure extract/shift).
func (f *Factory) linSelect(a *Term, c []uint64, k uint64, w int) *Term {
	if k != 0 {
		return nil
	}
	src := make([]int, w)
	for i := range src {
		src[i] = -1
	}
	for j, v := range c {
		for b := 0; b < w; b++ {
			if v>>uint(b)&1 != 0 {
				if src[b] >= 0 {
					return nil
				}
				src[b] = j
			}
		}
	}
	var parts []*Term
	n := 0
	for b := w - 1; b >= 0; {
		if src[b] < 0 {
			e := b
			for e >= 0 && src[e] < 0 {
				e--
			}
			parts = append(parts, f.Const(b-e, 0))
			b = e
			continue
		}
		e := b
		for e-1 >= 0 && src[e-1] == src[e]-1 && src[e-1] >= 0 {
			e--
		}
		parts = append(parts, f.Extract(a, src[e], b-e+1))
		b = e - 1
		n++
	}
	if n > 2 {
		return nil
	}
	return f.Concat(parts...)
}

func (f *Factory) linApply(idx *Term, w int, cols []uint64, k uint64) *Term {
	in := f.linOf(idx)
	out := linTerm{m: map[*Term][]uint64{}, k: k}
	ap := func(v uint64) uint64 {
		x := uint64(0)
		for v != 0 {
			j := bits.TrailingZeros64(v)
			x ^= cols[j]
			v &= v - 1
		}
		return x
	}
	out.k ^= ap(in.k)
	for a, c := range in.m {
		nc := make([]uint64, len(c))
		for j, v := range c {
			nc[j] = ap(v)
		}
		out.m[a] = nc
	}
	return f.linMk(out, w)
}

// linMap applies a linear bit map g (g(0)=0, g(x^y)=g(x)^g(y)).
func (f *Factory) linMap(t *Term, w int, g func(uint64) uint64) *Term {
	in := f.linOf(t)
	out := linTerm{m: map[*Term][]uint64{}, k: g(in.k)}
	for a, c := range in.m {
		nc := make([]uint64, len(c))
		for j, v := range c {
			nc[j] = g(v)
		}
		out.m[a] = nc
	}
	return f.linMk(out, w)
}

func (f *Factory) linXor(a, b *Term) *Term {
	r := f.linOf(a)
	f.linAdd(&r, b, 0)
	return f.linMk(r, a.w)
}

func (f *Factory) UF(name string, w int, args ...*Term) *Term {
	return f.mk(Term{op: OUF, w: w, name: name, args: args})
}

func (f *Factory) F32to64(t *Term) *Term {
	if t.isC() {
		return f.Const(64, math.Float64bits(float64(math.Float32frombits(uint32(t.k)))))
	}
	return f.mk(Term{op: OF32to64, w: 64, args: []*Term{t}})
}

func (f *Factory) F64to32(t *Term) *Term {
	if t.isC() {
		return f.Const(32, uint64(math.Float32bits(float32(math.Float64frombits(t.k)))))
	}
	if t.op == OF32to64 {
		// exact except for signalling NaNs, which Go quietens on both conversions
		return f.mk(Term{op: OF64to32, w: 32, args: []*Term{t}})
	}
	return f.mk(Term{op: OF64to32, w: 32, args: []*Term{t}})
}

// ---- boolean constructors ----

func (f *Factory) BNot(t *Term) *Term {
	if t.isC() {
		return f.Bool(t.k == 0)
	}
	if t.op == OBNot {
		return t.args[0]
	}
	return f.mk(Term{op: OBNot, w: 0, args: []*Term{t}})
}

func (f *Factory) nary(op Op, unit, zero *Term, ts []*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t == zero {
			return false
		}
		if t == unit || seen[t] {
			return true
		}
		if t.op == op {
			for _, a := range t.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if seen[f.BNot(t)] {
			return false
		}
		seen[t] = true
		out = append(out, t)
		return true
	}
	for _, t := range ts {
		if !add(t) {
			return zero
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return f.mk(Term{op: op, w: 0, args: out})
}

func (f *Factory) BAnd(ts ...*Term) *Term { return f.nary(OBAnd, f.True, f.False, ts) }
func (f *Factory) BOr(ts ...*Term) *Term  { return f.nary(OBOr, f.False, f.True, ts) }

func (f *Factory) Eq(a, b *Term) *Term {
	if a == b {
		return f.True
	}
	if a.w != b.w {
		panic(fmt.Sprintf("eq width mismatch %d %d", a.w, b.w))
	}
	if a.isC() && b.isC() {
		return f.Bool(a.k == b.k)
	}
	if a.isC() {
		a, b = b, a
	}
	if a.w == 0 {
		if b.isC() {
			if b.k != 0 {
				return a
			}
			return f.BNot(a)
		}
		if a.op == OBNot && b.op == OBNot {
			return f.Eq(a.args[0], b.args[0])
		}
		if f.BNot(a) == b {
			return f.False
		}
		if b.id < a.id {
			a, b = b, a
		}
		return f.mk(Term{op: OEq, w: 0, args: []*Term{a, b}})
	}
	if a.hi < b.lo || b.hi < a.lo {
		return f.False
	}
	if a.op == OLin || b.op == OLin {
		return f.linEq(a, b)
	}
	if a.op == OConcat || b.op == OConcat {
		as, bs := f.splitSegs(a, b)
		if len(as) > 1 {
			parts := make([]*Term, 0, len(as))
			for i := range as {
				e := f.Eq(as[i], bs[i])
				if e == f.False {
					return e
				}
				parts = append(parts, e)
			}
			return f.BAnd(parts...)
		}
	}
	if b.isC() {
		switch a.op {
		case OAdd:
			if a.args[1].isC() {
				return f.Eq(a.args[0], f.Const(a.w, b.k-a.args[1].k))
			}
		case OSub:
			if a.args[0].isC() {
				return f.Eq(a.args[1], f.Const(a.w, a.args[0].k-b.k))
			}
			if b.k == 0 {
				return f.Eq(a.args[0], a.args[1])
			}
		case ONot:
			return f.Eq(a.args[0], f.Const(a.w, ^b.k))
		case OXor:
			if a.args[1].isC() {
				return f.Eq(a.args[0], f.Const(a.w, a.args[1].k^b.k))
			}
			if b.k == 0 {
				return f.Eq(a.args[0], a.args[1])
			}
		case OSExt:
			n := a.args[0].w
			if sext(b.k&mask(n), n) == sext(b.k, a.w) {
				return f.Eq(a.args[0], f.Const(n, b.k))
			}
			return f.False
		case OIte:
			x, y := a.args[1], a.args[2]
			if x.isC() || y.isC() {
				return f.Ite(a.args[0], f.Eq(x, b), f.Eq(y, b))
			}
		case OTable:
			idx := a.args[0]
			cnt, at := 0, 0
			for i, v := range a.tab {
				if v == b.k && uint64(i) >= idx.lo && uint64(i) <= idx.hi {
					cnt++
					at = i
				}
			}
			if cnt == 0 {
				return f.False
			}
			if cnt <= 2 {
				var ps []*Term
				for i, v := range a.tab {
					if v == b.k && uint64(i) >= idx.lo && uint64(i) <= idx.hi {
						ps = append(ps, f.Eq(idx, f.Const(idx.w, uint64(i))))
					}
				}
				return f.BOr(ps...)
			}
			_ = at
		}
	} else {
		if a.op == OSExt && b.op == OSExt && a.args[0].w == b.args[0].w {
			return f.Eq(a.args[0], b.args[0])
		}
		if a.op == OAdd && b.op == OAdd && a.args[1] == b.args[1] {
			return f.Eq(a.args[0], b.args[0])
		}
		if a.op == OAdd && (a.args[0] == b || a.args[1] == b) {
			o := a.args[0]
			if o == b {
				o = a.args[1]
			}
			return f.Eq(o, f.Const(a.w, 0))
		}
		if b.op == OAdd && (b.args[0] == a || b.args[1] == a) {
			return f.Eq(b, a)
		}
		if a.op == OIte && b.op != OIte && (a.args[1] == b || a.args[2] == b) {
			return f.Ite(a.args[0], f.Eq(a.args[1], b), f.Eq(a.args[2], b))
		}
		if b.op == OIte && a.op != OIte && (b.args[1] == a || b.args[2] == a) {
			return f.Ite(b.args[0], f.Eq(b.args[1], a), f.Eq(b.args[2], a))
		}
	}
	if b.id < a.id && !b.isC() {
		a, b = b, a
	}
	return f.mk(Term{op: OEq, w: 0, args: []*Term{a, b}})
}

// splitSegs splits at segment boundaries only (not inside constants).
func (f *Factory) splitSegs(a, b *Term) ([]*Term, []*Term) {
	cut := map[int]bool{}
	for _, t := range []*Term{a, b} {
		pos := t.w
		for _, s := range segs(t) {
			pos -= s.w
			if pos > 0 {
				cut[pos] = true
			}
		}
	}
	var cs []int
	for c := range cut {
		cs = append(cs, c)
	}
	sort.Sort(sort.Reverse(sort.IntSlice(cs)))
	cs = append(cs, 0)
	var as, bs []*Term
	top := a.w
	for _, c := range cs {
		as = append(as, f.Extract(a, c, top-c))
		bs = append(bs, f.Extract(b, c, top-c))
		top = c
	}
	return as, bs
}

// linEq decides or simplifies a==b for GF(2)-affine terms by Gaussian
// elimination: the equation system is brought to reduced row echelon form.
func (f *Factory) linEq(a, b *Term) *Term {
	r := f.linOf(a)
	f.linAdd(&r, b, 0)
	w := a.w
	// rows: out bit i: sum of input bits = k bit i
	var args []*Term
	for t := range r.m {
		args = append(args, t)
	}
	sort.Slice(args, func(i, j int) bool { return args[i].id < args[j].id })
	type bitref struct {
		t *Term
		j int
	}
	var cols []bitref
	var colv []uint64
	for _, t := range args {
		for j, v := range r.m[t] {
			if v &= mask(w); v != 0 {
				cols = append(cols, bitref{t, j})
				colv = append(colv, v)
			}
		}
	}
	k := r.k & mask(w)
	if len(cols) == 0 {
		return f.Bool(k == 0)
	}
	// rank and elimination on rows with column bitsets
	nw := (len(cols) + 63) / 64
	rows := make([][]uint64, w)
	rhs := make([]bool, w)
	for i := 0; i < w; i++ {
		rows[i] = make([]uint64, nw)
		for c, v := range colv {
			if v>>uint(i)&1 != 0 {
				rows[i][c/64] |= 1 << uint(c%64)
			}
		}
		rhs[i] = k>>uint(i)&1 != 0
	}
	rank := 0
	for c := 0; c < len(cols) && rank < w; c++ {
		p := -1
		for i := rank; i < w; i++ {
			if rows[i][c/64]>>uint(c%64)&1 != 0 {
				p = i
				break
			}
		}
		if p < 0 {
			continue
		}
		rows[rank], rows[p] = rows[p], rows[rank]
		rhs[rank], rhs[p] = rhs[p], rhs[rank]
		for i := 0; i < w; i++ {
			if i != rank && rows[i][c/64]>>uint(c%64)&1 != 0 {
				for x := range rows[i] {
					rows[i][x] ^= rows[rank][x]
				}
				rhs[i] = rhs[i] != rhs[rank]
			}
		}
		rank++
	}
	for i := rank; i < w; i++ {
		if rhs[i] {
			return f.False
		}
	}
	var parts []*Term
	one := f.Const(1, 1)
	// single-bit rows become direct equalities, grouped by term
	for i := 0; i < rank; i++ {
		var x *Term
		n := 0
		for c := range cols {
			if rows[i][c/64]>>uint(c%64)&1 != 0 {
				n++
			}
		}
		if n == 1 {
			for c := range cols {
				if rows[i][c/64]>>uint(c%64)&1 != 0 {
					x = f.Extract(cols[c].t, cols[c].j, 1)
				}
			}
			v := f.Const(1, 0)
			if rhs[i] {
				v = one
			}
			parts = append(parts, f.Eq(x, v))
			continue
		}
		lt := linTerm{m: map[*Term][]uint64{}}
		for c := range cols {
			if rows[i][c/64]>>uint(c%64)&1 != 0 {
				lt.col(cols[c].t)[cols[c].j] ^= 1
			}
		}
		x = f.linMk(lt, 1)
		v := f.Const(1, 0)
		if rhs[i] {
			v = one
		}
		if x.op == OLin || x.op == OXor {
			aa, bb := x, v
			parts = append(parts, f.mk(Term{op: OEq, w: 0, args: []*Term{aa, bb}}))
		} else {
			parts = append(parts, f.Eq(x, v))
		}
	}
	return f.BAnd(parts...)
}

func (f *Factory) Ult(a, b *Term) *Term {
	if a.w != b.w {
		panic("ult width mismatch")
	}
	if a == b {
		return f.False
	}
	if a.isC() && b.isC() {
		return f.Bool(a.k < b.k)
	}
	if a.hi < b.lo {
		return f.True
	}
	if a.lo >= b.hi {
		return f.False
	}
	if b.isC() && b.k == 1 {
		return f.Eq(a, f.Const(a.w, 0))
	}
	if a.isC() && a.k == 0 {
		return f.BNot(f.Eq(b, f.Const(b.w, 0)))
	}
	if z := min(topZero(a), topZero(b)); z > 0 && z < a.w && (a.op == OConcat || b.op == OConcat) {
		return f.Ult(f.Extract(a, 0, a.w-z), f.Extract(b, 0, b.w-z))
	}
	if b.isC() && a.op == OIte && (a.args[1].isC() || a.args[2].isC()) {
		return f.Ite(a.args[0], f.Ult(a.args[1], b), f.Ult(a.args[2], b))
	}
	if a.isC() && b.op == OIte && (b.args[1].isC() || b.args[2].isC()) {
		return f.Ite(b.args[0], f.Ult(a, b.args[1]), f.Ult(a, b.args[2]))
	}
	return f.mk(Term{op: OUlt, w: 0, args: []*Term{a, b}})
}

func (f *Factory) Slt(a, b *Term) *Term {
	if a == b {
		return f.False
	}
	if a.isC() && b.isC() {
		return f.Bool(sext(a.k, a.w) < sext(b.k, b.w))
	}
	na, nb := nonneg(a), nonneg(b)
	if na && nb {
		return f.Ult(a, b)
	}
	// known negative const vs known nonneg
	if a.isC() && !na && nb {
		return f.True
	}
	if b.isC() && !nb && na {
		return f.False
	}
	if b.isC() && b.k == 0 {
		return f.Eq(f.Extract(a, a.w-1, 1), f.Const(1, 1))
	}
	if a.op == OSExt && b.op == OSExt && a.args[0].w == b.args[0].w {
		return f.Slt(a.args[0], b.args[0])
	}
	if a.op == OSExt && b.isC() {
		n := a.args[0].w
		if sext(b.k&mask(n), n) == sext(b.k, b.w) {
			return f.Slt(a.args[0], f.Const(n, b.k))
		}
	}
	if b.op == OSExt && a.isC() {
		n := b.args[0].w
		if sext(a.k&mask(n), n) == sext(a.k, a.w) {
			return f.Slt(f.Const(n, a.k), b.args[0])
		}
	}
	if b.isC() && a.op == OIte && (a.args[1].isC() || a.args[2].isC()) {
		return f.Ite(a.args[0], f.Slt(a.args[1], b), f.Slt(a.args[2], b))
	}
	return f.mk(Term{op: OSlt, w: 0, args: []*Term{a, b}})
}

func (f *Factory) Ule(a, b *Term) *Term { return f.BNot(f.Ult(b, a)) }
func (f *Factory) Sle(a, b *Term) *Term { return f.BNot(f.Slt(b, a)) }

// ---- evaluation ----

func (f *Factory) SetModel(m map[string]uint64) {
	f.model = m
	f.gen++
}

// Eval evaluates t under the current model (unset variables are 0).
func (f *Factory) Eval(t *Term) uint64 {
	if t.op == OConst {
		return t.k
	}
	if t.evGen == f.gen {
		return t.evVal
	}
	v := f.eval1(t, f.Eval)
	t.evGen = f.gen
	t.evVal = v
	return v
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (f *Factory) eval1(t *Term, ev func(*Term) uint64) uint64 {
	m := mask(t.w)
	switch t.op {
	case OConst:
		return t.k
	case OVar:
		if t.w == 0 {
			return f.model[t.name] & 1
		}
		return f.model[t.name] & m
	case OAdd:
		return (ev(t.args[0]) + ev(t.args[1])) & m
	case OSub:
		return (ev(t.args[0]) - ev(t.args[1])) & m
	case OMul:
		return (ev(t.args[0]) * ev(t.args[1])) & m
	case OUDiv:
		b := ev(t.args[1])
		if b == 0 {
			return m
		}
		return ev(t.args[0]) / b
	case OURem:
		b := ev(t.args[1])
		if b == 0 {
			return ev(t.args[0])
		}
		return ev(t.args[0]) % b
	case OSDiv:
		a, b := sext(ev(t.args[0]), t.w), sext(ev(t.args[1]), t.w)
		if b == 0 {
			if a >= 0 {
				return m
			}
			return 1
		}
		if b == -1 {
			return uint64(-a) & m
		}
		return uint64(a/b) & m
	case OSRem:
		a, b := sext(ev(t.args[0]), t.w), sext(ev(t.args[1]), t.w)
		if b == 0 {
			return uint64(a) & m
		}
		if b == -1 {
			return 0
		}
		return uint64(a%b) & m
	case OAnd:
		return ev(t.args[0]) & ev(t.args[1])
	case OOr:
		return ev(t.args[0]) | ev(t.args[1])
	case OXor:
		return ev(t.args[0]) ^ ev(t.args[1])
	case ONot:
		return ^ev(t.args[0]) & m
	case OShl:
		b := ev(t.args[1])
		if b >= uint64(t.w) {
			return 0
		}
		return ev(t.args[0]) << b & m
	case OLshr:
		b := ev(t.args[1])
		if b >= uint64(t.w) {
			return 0
		}
		return ev(t.args[0]) >> b
	case OAshr:
		b := min(ev(t.args[1]), uint64(t.w-1))
		return uint64(sext(ev(t.args[0]), t.w)>>b) & m
	case OConcat:
		var v uint64
		for _, a := range t.args {
			v = v<<uint(a.w) | ev(a)
		}
		return v
	case OExtract:
		return ev(t.args[0]) >> t.k & m
	case OSExt:
		return uint64(sext(ev(t.args[0]), t.args[0].w)) & m
	case OIte:
		if ev(t.args[0]) != 0 {
			return ev(t.args[1])
		}
		return ev(t.args[2])
	case OTable:
		i := ev(t.args[0])
		if i < uint64(len(t.tab)) {
			return t.tab[i]
		}
		return 0
	case OLin:
		v := t.k
		for i, a := range t.args {
			x := ev(a)
			for j, c := range t.cols[i] {
				if x>>uint(j)&1 != 0 {
					v ^= c
				}
			}
		}
		return v
	case OUF:
		return ufEval(f, t, ev) & m
	case OF32to64:
		return math.Float64bits(float64(math.Float32frombits(uint32(ev(t.args[0])))))
	case OF64to32:
		return uint64(math.Float32bits(float32(math.Float64frombits(ev(t.args[0])))))
	case OEq:
		return b2u(ev(t.args[0]) == ev(t.args[1]))
	case OUlt:
		return b2u(ev(t.args[0]) < ev(t.args[1]))
	case OSlt:
		w := t.args[0].w
		return b2u(sext(ev(t.args[0]), w) < sext(ev(t.args[1]), w))
	case OBNot:
		return 1 - ev(t.args[0])
	case OBAnd:
		for _, a := range t.args {
			if ev(a) == 0 {
				return 0
			}
		}
		return 1
	case OBOr:
		for _, a := range t.args {
			if ev(a) != 0 {
				return 1
			}
		}
		return 0
	}
	panic("eval: op")
}

// ufKey names the model entry of an uninterpreted application.
func ufKey(name string, vals []uint64) string {
	var sb strings.Builder
	sb.WriteString("uf!")
	sb.WriteString(name)
	for _, v := range vals {
		fmt.Fprintf(&sb, ",%x", v)
	}
	return sb.String()
}

func ufEval(f *Factory, t *Term, ev func(*Term) uint64) uint64 {
	vals := make([]uint64, len(t.args))
	for i, a := range t.args {
		vals[i] = ev(a)
	}
	if fn := ufConcrete[t.name]; fn != nil {
		return fn(vals)
	}
	return f.model[ufKey(t.name, vals)]
}

// ufConcrete gives real semantics to functions left uninterpreted in queries.
var ufConcrete = map[string]func([]uint64) uint64{}

func (t *Term) String() string {
	var sb strings.Builder
	t.str(&sb, 6)
	return sb.String()
}

func (t *Term) str(sb *strings.Builder, d int) {
	switch t.op {
	case OConst:
		if t.w == 0 {
			fmt.Fprintf(sb, "%v", t.k != 0)
		} else {
			fmt.Fprintf(sb, "%#x", t.k)
		}
		return
	case OVar:
		sb.WriteString(t.name)
		return
	}
	if d == 0 {
		fmt.Fprintf(sb, "t%d", t.id)
		return
	}
	fmt.Fprintf(sb, "(%s", opNames[t.op])
	if t.op == OExtract {
		fmt.Fprintf(sb, "[%d+%d]", t.k, t.w)
	}
	for _, a := range t.args {
		sb.WriteByte(' ')
		a.str(sb, d-1)
	}
	sb.WriteByte(')')
}
