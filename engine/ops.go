package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"unicode/utf8"
)

type binfn func(t *thread, a, b Value) Value

// mkBinop builds the implementation of a binary operator on operand type xt.
func mkBinop(op token.Token, xt, yt, rt types.Type) binfn {
	x := ti(xt)
	switch op {
	case token.EQL, token.NEQ:
		y := ti(yt)
		neg := op == token.NEQ
		if x.k == kInt || x.k == kBool {
			w := x.w
			return func(t *thread, a, b Value) Value {
				if a.p == nil && b.p == nil {
					return vBool((a.n == b.n) != neg)
				}
				f := t.run.f
				e := f.Eq(t.run.term(a, w), t.run.term(b, w))
				if neg {
					e = f.BNot(e)
				}
				return t.run.val(e)
			}
		}
		tt := x
		if x.k == kNilT {
			tt = y
		}
		// interface vs concrete comparison is normalised by ssa (MakeInterface)
		return func(t *thread, a, b Value) Value {
			r := t.eqVal(tt, a, b)
			if neg {
				if r.p == nil {
					return vBool(r.n == 0)
				}
				return t.run.val(t.run.f.BNot(r.p.(*Term)))
			}
			return r
		}
	}
	switch x.k {
	case kInt:
		return mkIntBinop(op, x, ti(yt))
	case kFloat:
		return mkFloatBinop(op, x)
	case kString:
		switch op {
		case token.ADD:
			return func(t *thread, a, b Value) Value {
				s1, o1 := strConc(a)
				s2, o2 := strConc(b)
				if o1 && o2 {
					return goStr(s1 + s2)
				}
				x, y := strBytes(a), strBytes(b)
				r := make([]Value, 0, len(x)+len(y))
				r = append(append(r, x...), y...)
				return Value{p: &symStr{r}}
			}
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			return func(t *thread, a, b Value) Value {
				s1, o1 := strConc(a)
				s2, o2 := strConc(b)
				if o1 && o2 {
					switch op {
					case token.LSS:
						return vBool(s1 < s2)
					case token.LEQ:
						return vBool(s1 <= s2)
					case token.GTR:
						return vBool(s1 > s2)
					default:
						return vBool(s1 >= s2)
					}
				}
				switch op {
				case token.LSS:
					return t.strLess(a, b)
				case token.GTR:
					return t.strLess(b, a)
				case token.LEQ:
					return t.notV(t.strLess(b, a))
				default:
					return t.notV(t.strLess(a, b))
				}
			}
		}
	case kBool:
		switch op {
		case token.AND, token.LAND:
			return func(t *thread, a, b Value) Value {
				return t.run.val(t.run.f.BAnd(t.run.term(a, 0), t.run.term(b, 0)))
			}
		case token.OR, token.LOR:
			return func(t *thread, a, b Value) Value {
				return t.run.val(t.run.f.BOr(t.run.term(a, 0), t.run.term(b, 0)))
			}
		}
	case kComplex:
		return func(t *thread, a, b Value) Value { t.unsupported("complex arithmetic"); return Value{} }
	}
	return func(t *thread, a, b Value) Value {
		t.unsupported("binop %v on %v", op, xt)
		return Value{}
	}
}

func (t *thread) notV(v Value) Value {
	if v.p == nil {
		return vBool(v.n == 0)
	}
	return t.run.val(t.run.f.BNot(v.p.(*Term)))
}

func (t *thread) strLess(a, b Value) Value {
	f := t.run.f
	x, y := strBytes(a), strBytes(b)
	// from the end: less = (i at end of x && i < len y) || ...
	r := f.Bool(len(x) < len(y))
	n := min(len(x), len(y))
	for i := n - 1; i >= 0; i-- {
		p, q := t.run.term(x[i], 8), t.run.term(y[i], 8)
		r = f.Ite(f.Eq(p, q), r, f.Ult(p, q))
	}
	return t.run.val(r)
}

func mkIntBinop(op token.Token, x, y *tinfo) binfn {
	w, signed := x.w, x.signed
	m := mask(w)
	switch op {
	case token.ADD:
		return func(t *thread, a, b Value) Value {
			if a.p == nil && b.p == nil {
				return Value{n: (a.n + b.n) & m}
			}
			return t.run.val(t.run.f.Add(t.run.term(a, w), t.run.term(b, w)))
		}
	case token.SUB:
		return func(t *thread, a, b Value) Value {
			if a.p == nil && b.p == nil {
				return Value{n: (a.n - b.n) & m}
			}
			return t.run.val(t.run.f.Sub(t.run.term(a, w), t.run.term(b, w)))
		}
	case token.MUL:
		return func(t *thread, a, b Value) Value {
			if a.p == nil && b.p == nil {
				return Value{n: (a.n * b.n) & m}
			}
			return t.run.val(t.run.f.Mul(t.run.term(a, w), t.run.term(b, w)))
		}
	case token.AND:
		return func(t *thread, a, b Value) Value {
			if a.p == nil && b.p == nil {
				return Value{n: a.n & b.n}
			}
			return t.run.val(t.run.f.And(t.run.term(a, w), t.run.term(b, w)))
		}
	case token.OR:
		return func(t *thread, a, b Value) Value {
			if a.p == nil && b.p == nil {
				return Value{n: a.n | b.n}
			}
			return t.run.val(t.run.f.Or(t.run.term(a, w), t.run.term(b, w)))
		}
	case token.XOR:
		return func(t *thread, a, b Value) Value {
			if a.p == nil && b.p == nil {
				return Value{n: a.n ^ b.n}
			}
			return t.run.val(t.run.f.Xor(t.run.term(a, w), t.run.term(b, w)))
		}
	case token.AND_NOT:
		return func(t *thread, a, b Value) Value {
			if a.p == nil && b.p == nil {
				return Value{n: a.n &^ b.n}
			}
			return t.run.val(t.run.f.And(t.run.term(a, w), t.run.f.Not(t.run.term(b, w))))
		}
	case token.QUO, token.REM:
		return func(t *thread, a, b Value) Value {
			if b.p == nil && b.n == 0 {
				t.rtPanic("integer divide by zero")
			}
			f := t.run.f
			if a.p == nil && b.p == nil {
				if signed {
					p, q := sext(a.n, w), sext(b.n, w)
					if q == -1 {
						if op == token.QUO {
							return Value{n: uint64(-p) & m}
						}
						return Value{}
					}
					if op == token.QUO {
						return Value{n: uint64(p/q) & m}
					}
					return Value{n: uint64(p%q) & m}
				}
				if op == token.QUO {
					return Value{n: a.n / b.n}
				}
				return Value{n: a.n % b.n}
			}
			ta, tb := t.run.term(a, w), t.run.term(b, w)
			if b.p != nil {
				if t.run.branch(t, f.Eq(tb, f.Const(w, 0))) {
					t.rtPanic("integer divide by zero")
				}
			}
			switch {
			case signed && op == token.QUO:
				return t.run.val(f.SDiv(ta, tb))
			case signed:
				return t.run.val(f.SRem(ta, tb))
			case op == token.QUO:
				return t.run.val(f.UDiv(ta, tb))
			default:
				return t.run.val(f.URem(ta, tb))
			}
		}
	case token.SHL, token.SHR:
		yw, ysigned := y.w, y.signed
		return func(t *thread, a, b Value) Value {
			f := t.run.f
			if b.p == nil {
				cnt := b.n
				if ysigned && sext(cnt, yw) < 0 {
					t.rtPanic("negative shift amount")
				}
				if a.p == nil {
					if op == token.SHL {
						if cnt >= 64 {
							return Value{}
						}
						return Value{n: a.n << cnt & m}
					}
					if signed {
						if cnt > 63 {
							cnt = 63
						}
						return Value{n: uint64(sext(a.n, w)>>cnt) & m}
					}
					if cnt >= 64 {
						return Value{}
					}
					return Value{n: a.n >> cnt}
				}
				ct := f.Const(w, min(cnt, uint64(w)))
				if uint64(w) > m {
					ct = f.Const(w, m)
				}
				if cnt >= uint64(w) {
					if op == token.SHR && signed {
						return t.run.val(f.Ashr(a.p.(*Term), f.Const(w, uint64(w-1))))
					}
					return Value{}
				}
				return t.run.val(shiftTerm(f, op, signed, a.p.(*Term), ct))
			}
			tb := b.p.(*Term)
			if ysigned {
				if t.run.branch(t, f.Slt(tb, f.Const(yw, 0))) {
					t.rtPanic("negative shift amount")
				}
			}
			ta := t.run.term(a, w)
			if yw > w {
				big := f.BNot(f.Ult(tb, f.Const(yw, uint64(w))))
				var over *Term
				if op == token.SHR && signed {
					over = f.Ashr(ta, f.Const(w, uint64(w-1)))
				} else {
					over = f.Const(w, 0)
				}
				return t.run.val(f.Ite(big, over, shiftTerm(f, op, signed, ta, f.Extract(tb, 0, w))))
			}
			return t.run.val(shiftTerm(f, op, signed, ta, f.ZExt(tb, w)))
		}
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		return func(t *thread, a, b Value) Value {
			if a.p == nil && b.p == nil {
				if signed {
					p, q := sext(a.n, w), sext(b.n, w)
					switch op {
					case token.LSS:
						return vBool(p < q)
					case token.LEQ:
						return vBool(p <= q)
					case token.GTR:
						return vBool(p > q)
					default:
						return vBool(p >= q)
					}
				}
				switch op {
				case token.LSS:
					return vBool(a.n < b.n)
				case token.LEQ:
					return vBool(a.n <= b.n)
				case token.GTR:
					return vBool(a.n > b.n)
				default:
					return vBool(a.n >= b.n)
				}
			}
			f := t.run.f
			ta, tb := t.run.term(a, w), t.run.term(b, w)
			lt := f.Ult
			if signed {
				lt = f.Slt
			}
			switch op {
			case token.LSS:
				return t.run.val(lt(ta, tb))
			case token.LEQ:
				return t.run.val(f.BNot(lt(tb, ta)))
			case token.GTR:
				return t.run.val(lt(tb, ta))
			default:
				return t.run.val(f.BNot(lt(ta, tb)))
			}
		}
	}
	panic("int binop " + op.String())
}

func shiftTerm(f *Factory, op token.Token, signed bool, a, c *Term) *Term {
	if op == token.SHL {
		return f.Shl(a, c)
	}
	if signed {
		return f.Ashr(a, c)
	}
	return f.Lshr(a, c)
}

func fpNaN(f *Factory, t *Term) *Term {
	if t.w == 32 {
		return f.Ult(f.Const(31, 0x7f800000), f.Extract(t, 0, 31))
	}
	return f.Ult(f.Const(63, 0x7ff0000000000000), f.Extract(t, 0, 63))
}

func fpEq(f *Factory, a, b *Term) *Term {
	w := a.w
	bothZero := f.BAnd(f.Eq(f.Extract(a, 0, w-1), f.Const(w-1, 0)), f.Eq(f.Extract(b, 0, w-1), f.Const(w-1, 0)))
	return f.BAnd(f.BNot(fpNaN(f, a)), f.BNot(fpNaN(f, b)), f.BOr(f.Eq(a, b), bothZero))
}

func fpLt(f *Factory, a, b *Term) *Term {
	w := a.w
	sa, sb := f.Eq(f.Extract(a, w-1, 1), f.Const(1, 1)), f.Eq(f.Extract(b, w-1, 1), f.Const(1, 1))
	ma, mb := f.Extract(a, 0, w-1), f.Extract(b, 0, w-1)
	z := f.Const(w-1, 0)
	bothZero := f.BAnd(f.Eq(ma, z), f.Eq(mb, z))
	lt := f.Ite(sa, f.Ite(sb, f.Ult(mb, ma), f.BNot(bothZero)), f.Ite(sb, f.False, f.Ult(ma, mb)))
	return f.BAnd(f.BNot(fpNaN(f, a)), f.BNot(fpNaN(f, b)), lt)
}

func mkFloatBinop(op token.Token, x *tinfo) binfn {
	w := x.w
	return func(t *thread, a, b Value) Value {
		if a.p == nil && b.p == nil {
			p, q := fbits(a.n, w), fbits(b.n, w)
			switch op {
			case token.ADD:
				return Value{n: tobits(p+q, w)}
			case token.SUB:
				return Value{n: tobits(p-q, w)}
			case token.MUL:
				return Value{n: tobits(p*q, w)}
			case token.QUO:
				return Value{n: tobits(p/q, w)}
			case token.LSS:
				return vBool(p < q)
			case token.LEQ:
				return vBool(p <= q)
			case token.GTR:
				return vBool(p > q)
			case token.GEQ:
				return vBool(p >= q)
			}
		}
		f := t.run.f
		ta, tb := t.run.term(a, w), t.run.term(b, w)
		switch op {
		case token.LSS:
			return t.run.val(fpLt(f, ta, tb))
		case token.GTR:
			return t.run.val(fpLt(f, tb, ta))
		case token.LEQ:
			return t.run.val(f.BOr(fpLt(f, ta, tb), fpEq(f, ta, tb)))
		case token.GEQ:
			return t.run.val(f.BOr(fpLt(f, tb, ta), fpEq(f, ta, tb)))
		}
		t.unsupported("symbolic float arithmetic %v", op)
		return Value{}
	}
}

// eqVal compares two values of type x; the result may be symbolic.
func (t *thread) eqVal(x *tinfo, a, b Value) Value {
	f := t.run.f
	switch x.k {
	case kInt, kBool:
		if a.p == nil && b.p == nil {
			return vBool(a.n == b.n)
		}
		return t.run.val(f.Eq(t.run.term(a, x.w), t.run.term(b, x.w)))
	case kFloat:
		if a.p == nil && b.p == nil {
			return vBool(fbits(a.n, x.w) == fbits(b.n, x.w))
		}
		return t.run.val(fpEq(f, t.run.term(a, x.w), t.run.term(b, x.w)))
	case kString:
		return t.strEq(a, b)
	case kPtr, kChan, kUnsafePtr:
		if a.p == nil || b.p == nil {
			return vBool(a.p == nil && b.p == nil && a.n == b.n)
		}
		return vBool(a.p == b.p)
	case kMap, kFunc, kSlice, kNilT:
		if a.p == nil || b.p == nil {
			return vBool(a.p == nil && b.p == nil)
		}
		return vBool(a.p == b.p)
	case kIface:
		p, q := ifc(a), ifc(b)
		if p == nil || q == nil {
			return vBool(p == nil && q == nil)
		}
		if p.rt != q.rt {
			return vBool(false)
		}
		if p.rt == rtypeRT {
			return vBool(p.v.p == q.v.p)
		}
		tt := ti(p.rt.t)
		switch tt.k {
		case kMap, kFunc, kSlice:
			t.rtPanic("comparing uncomparable type %s", p.rt.t)
		}
		return t.eqVal(tt, p.v, q.v)
	case kStruct:
		p, q := a.p.(*agg), b.p.(*agg)
		r := f.True
		for i, ft := range x.fields {
			if sv, ok := x.t.Underlying().(*types.Struct); ok && sv.Field(i).Name() == "_" {
				continue
			}
			e := t.eqVal(ft, p.e[i], q.e[i])
			if e.p == nil {
				if e.n == 0 {
					return vBool(false)
				}
				continue
			}
			r = f.BAnd(r, e.p.(*Term))
		}
		return t.run.val(r)
	case kArray:
		p, q := a.p.(*agg), b.p.(*agg)
		r := f.True
		for i := range p.e {
			e := t.eqVal(x.elem, p.e[i], q.e[i])
			if e.p == nil {
				if e.n == 0 {
					return vBool(false)
				}
				continue
			}
			r = f.BAnd(r, e.p.(*Term))
		}
		return t.run.val(r)
	case kComplex:
		return vBool(a.p == b.p)
	}
	t.unsupported("comparison of %v", x.t)
	return Value{}
}

func (t *thread) strEq(a, b Value) Value {
	s1, o1 := strConc(a)
	s2, o2 := strConc(b)
	if o1 && o2 {
		return vBool(s1 == s2)
	}
	if strLen(a) != strLen(b) {
		return vBool(false)
	}
	return t.bytesEq(strBytes(a), strBytes(b))
}

func (t *thread) bytesEq(x, y []Value) Value {
	f := t.run.f
	if len(x) != len(y) {
		return vBool(false)
	}
	parts := make([]*Term, 0, len(x))
	for i := range x {
		if x[i].p == nil && y[i].p == nil {
			if x[i].n != y[i].n {
				return vBool(false)
			}
			continue
		}
		parts = append(parts, f.Eq(t.run.term(x[i], 8), t.run.term(y[i], 8)))
	}
	return t.run.val(f.BAnd(parts...))
}

// ---- conversions ----

func mkConvert(from, to types.Type) func(t *thread, v Value) Value {
	a, b := ti(from), ti(to)
	switch {
	case a.k == kInt && b.k == kInt:
		if a.w == b.w {
			return func(t *thread, v Value) Value { return v }
		}
		m := mask(b.w)
		return func(t *thread, v Value) Value {
			if v.p == nil {
				if a.signed {
					return Value{n: uint64(sext(v.n, a.w)) & m}
				}
				return Value{n: v.n & m}
			}
			x := v.p.(*Term)
			f := t.run.f
			if b.w < a.w {
				return t.run.val(f.Extract(x, 0, b.w))
			}
			if a.signed {
				return t.run.val(f.SExt(x, b.w))
			}
			return t.run.val(f.ZExt(x, b.w))
		}
	case a.k == kInt && b.k == kFloat:
		return func(t *thread, v Value) Value {
			if v.p != nil {
				v = Value{n: t.concInt(v)}
			}
			if a.signed {
				return Value{n: tobits(float64(sext(v.n, a.w)), b.w)}
			}
			return Value{n: tobits(float64(v.n), b.w)}
		}
	case a.k == kFloat && b.k == kInt:
		return func(t *thread, v Value) Value {
			if v.p != nil {
				t.unsupported("symbolic float to int")
			}
			fl := fbits(v.n, a.w)
			if b.signed {
				return Value{n: uint64(int64(fl)) & mask(b.w)}
			}
			return Value{n: uint64(fl) & mask(b.w)}
		}
	case a.k == kFloat && b.k == kFloat:
		return func(t *thread, v Value) Value {
			if a.w == b.w {
				return v
			}
			if v.p == nil {
				return Value{n: tobits(fbits(v.n, a.w), b.w)}
			}
			if b.w == 64 {
				return t.run.val(t.run.f.F32to64(v.p.(*Term)))
			}
			return t.run.val(t.run.f.F64to32(v.p.(*Term)))
		}
	case a.k == kString && b.k == kString:
		return func(t *thread, v Value) Value { return v }
	case a.k == kString && b.k == kSlice:
		et := ti(to.Underlying().(*types.Slice).Elem())
		if et.w == 8 {
			return func(t *thread, v Value) Value {
				s := strBytes(v)
				c := make([]Value, len(s))
				copy(c, s)
				return mkSlice(c)
			}
		}
		return func(t *thread, v Value) Value {
			if s, ok := strConc(v); ok {
				var c []Value
				for _, r := range s {
					c = append(c, Value{n: uint64(uint32(r))})
				}
				if c == nil {
					c = []Value{}
				}
				return mkSlice(c)
			}
			b := strBytes(v)
			c := []Value{}
			for i := 0; i < len(b); {
				r, n := t.decodeRune(b[i:])
				c = append(c, r)
				i += n
			}
			return mkSlice(c)
		}
	case a.k == kSlice && b.k == kString:
		et := ti(from.Underlying().(*types.Slice).Elem())
		if et.w == 8 {
			return func(t *thread, v Value) Value { return mkStrV(slc(v)) }
		}
		return func(t *thread, v Value) Value {
			var out []Value
			for _, r := range slc(v) {
				out = append(out, t.encodeRune(r)...)
			}
			return mkStrV(out)
		}
	case a.k == kInt && b.k == kString:
		return func(t *thread, v Value) Value {
			if v.p == nil {
				r := rune(utf8.RuneError)
				if x := sext(v.n, a.w); x >= 0 && x <= utf8.MaxRune {
					r = rune(x)
				}
				return goStr(string(r))
			}
			return mkStrV(t.encodeRune(v))
		}
	case a.k == b.k && (a.k == kPtr || a.k == kChan || a.k == kFunc || a.k == kMap || a.k == kSlice || a.k == kStruct || a.k == kArray || a.k == kBool):
		return func(t *thread, v Value) Value { return v }
	case b.k == kUnsafePtr || a.k == kUnsafePtr:
		return func(t *thread, v Value) Value { return v }
	}
	return func(t *thread, v Value) Value {
		t.unsupported("convert %v to %v", from, to)
		return Value{}
	}
}

// decodeRune decodes the first rune of b, forking on symbolic bytes.
func (t *thread) decodeRune(b []Value) (Value, int) {
	f := t.run.f
	conc := true
	for i := 0; i < len(b) && i < 4; i++ {
		if b[i].p != nil {
			conc = false
			break
		}
		if i == 0 && b[0].n < 0x80 {
			break
		}
	}
	if conc {
		var buf [4]byte
		n := min(4, len(b))
		for i := 0; i < n; i++ {
			buf[i] = byte(b[i].n)
		}
		r, sz := utf8.DecodeRune(buf[:n])
		return Value{n: uint64(uint32(r))}, sz
	}
	b0 := t.run.term(b[0], 8)
	c8 := func(v uint64) *Term { return f.Const(8, v) }
	if t.run.branch(t, f.Ult(b0, c8(0x80))) {
		return t.run.val(f.ZExt(b0, 32)), 1
	}
	bad := Value{n: 0xFFFD}
	if t.run.branch(t, f.Ult(b0, c8(0xC2))) {
		return bad, 1
	}
	in := func(x *Term, lo, hi uint64) bool {
		return t.run.branch(t, f.BAnd(f.Ule(c8(lo), x), f.Ule(x, c8(hi))))
	}
	low6 := func(x *Term) *Term { return f.Extract(x, 0, 6) }
	if t.run.branch(t, f.Ult(b0, c8(0xE0))) {
		if len(b) < 2 {
			return bad, 1
		}
		b1 := t.run.term(b[1], 8)
		if !in(b1, 0x80, 0xBF) {
			return bad, 1
		}
		return t.run.val(f.ZExt(f.Concat(f.Extract(b0, 0, 5), low6(b1)), 32)), 2
	}
	if t.run.branch(t, f.Ult(b0, c8(0xF0))) {
		if len(b) < 3 {
			// length 1 or 2: always one invalid byte
			return bad, 1
		}
		b1, b2 := t.run.term(b[1], 8), t.run.term(b[2], 8)
		lo, hi := uint64(0x80), uint64(0xBF)
		if t.run.branch(t, f.Eq(b0, c8(0xE0))) {
			lo = 0xA0
		} else if t.run.branch(t, f.Eq(b0, c8(0xED))) {
			hi = 0x9F
		}
		if !in(b1, lo, hi) || !in(b2, 0x80, 0xBF) {
			return bad, 1
		}
		return t.run.val(f.ZExt(f.Concat(f.Extract(b0, 0, 4), low6(b1), low6(b2)), 32)), 3
	}
	if t.run.branch(t, f.Ult(b0, c8(0xF5))) {
		if len(b) < 4 {
			return bad, 1
		}
		b1, b2, b3 := t.run.term(b[1], 8), t.run.term(b[2], 8), t.run.term(b[3], 8)
		lo, hi := uint64(0x80), uint64(0xBF)
		if t.run.branch(t, f.Eq(b0, c8(0xF0))) {
			lo = 0x90
		} else if t.run.branch(t, f.Eq(b0, c8(0xF4))) {
			hi = 0x8F
		}
		if !in(b1, lo, hi) || !in(b2, 0x80, 0xBF) || !in(b3, 0x80, 0xBF) {
			return bad, 1
		}
		return t.run.val(f.ZExt(f.Concat(f.Extract(b0, 0, 3), low6(b1), low6(b2), low6(b3)), 32)), 4
	}
	return bad, 1
}

// encodeRune gives the UTF-8 bytes of a rune (any integer width).
func (t *thread) encodeRune(v Value) []Value {
	if v.p == nil {
		r := rune(int32(v.n))
		s := string(r)
		out := make([]Value, len(s))
		for i := range out {
			out[i].n = uint64(s[i])
		}
		return out
	}
	f := t.run.f
	x := v.p.(*Term)
	w := x.w
	if w > 32 {
		if !t.run.branch(t, f.Ult(x, f.Const(w, 0x110000))) {
			return t.encodeRune(Value{n: 0xFFFD})
		}
		x = f.Extract(x, 0, 32)
	} else if w < 32 {
		x = f.ZExt(x, 32)
	}
	c := func(k uint64) *Term { return f.Const(32, k) }
	if t.run.branch(t, f.Ult(x, c(0x80))) {
		return []Value{t.run.val(f.Extract(x, 0, 8))}
	}
	cont := func(lo int) Value {
		return t.run.val(f.Concat(f.Const(2, 2), f.Extract(x, lo, 6)))
	}
	if t.run.branch(t, f.Ult(x, c(0x800))) {
		return []Value{t.run.val(f.Concat(f.Const(3, 6), f.Extract(x, 6, 5))), cont(0)}
	}
	isSur := f.BAnd(f.Ule(c(0xD800), x), f.Ule(x, c(0xDFFF)))
	if t.run.branch(t, f.BOr(isSur, f.Ult(c(0x10FFFF), x))) {
		return t.encodeRune(Value{n: 0xFFFD})
	}
	if t.run.branch(t, f.Ult(x, c(0x10000))) {
		return []Value{t.run.val(f.Concat(f.Const(4, 14), f.Extract(x, 12, 4))), cont(6), cont(0)}
	}
	return []Value{t.run.val(f.Concat(f.Const(5, 30), f.Extract(x, 18, 3))), cont(12), cont(6), cont(0)}
}

// ---- maps ----

type ikey struct {
	rt *rtype
	k  any
}

// mapKey gives a comparable Go key for a concrete value.
func mapKey(x *tinfo, v Value) (any, bool) {
	switch x.k {
	case kInt, kBool:
		if v.p != nil {
			return nil, false
		}
		return v.n, true
	case kFloat:
		if v.p != nil {
			return nil, false
		}
		fl := fbits(v.n, x.w)
		if math.IsNaN(fl) {
			return nil, false
		}
		return fl, true
	case kString:
		s, ok := strConc(v)
		if !ok {
			return nil, false
		}
		return s, true
	case kPtr, kChan, kUnsafePtr:
		if v.p == nil {
			return v.n, true
		}
		return v.p, true
	case kIface:
		i := ifc(v)
		if i == nil {
			return ikey{}, true
		}
		if i.rt == rtypeRT {
			return ikey{i.rt, i.v.p}, true
		}
		k, ok := mapKey(ti(i.rt.t), i.v)
		if !ok {
			return nil, false
		}
		return ikey{i.rt, k}, true
	case kStruct, kArray:
		s := ""
		a := v.p.(*agg)
		for i := range a.e {
			ft := x.elem
			if x.k == kStruct {
				ft = x.fields[i]
			}
			k, ok := mapKey(ft, a.e[i])
			if !ok {
				return nil, false
			}
			s += fmt.Sprintf("%T:%v|", k, k)
		}
		return "agg" + s, true
	}
	panic(fmt.Sprintf("map key %v", x.t))
}

func newMap() *mapV { return &mapV{idx: map[any]*mapEntry{}} }

func (t *thread) mapFind(m *mapV, kt *tinfo, k Value) *mapEntry {
	if m == nil {
		return nil
	}
	if kt.k == kIface {
		if i := ifc(k); i != nil && i.rt != rtypeRT {
			switch ti(i.rt.t).k {
			case kMap, kSlice, kFunc:
				t.rtPanic("hash of unhashable type %s", i.rt.t)
			}
		}
	}
	ck, ok := mapKey(kt, k)
	if ok {
		if e := m.idx[ck]; e != nil {
			return e
		}
		if m.sym == 0 {
			return nil
		}
	}
	for _, e := range m.ents {
		if e.dead {
			continue
		}
		if ok {
			if _, ek := mapKey(kt, e.k); ek {
				continue
			}
		}
		if t.cond(t.eqVal(kt, k, e.k)) {
			return e
		}
	}
	return nil
}

func (t *thread) mapSet(m *mapV, kt *tinfo, k, v Value) {
	if e := t.mapFind(m, kt, k); e != nil {
		e.v = v
		return
	}
	e := &mapEntry{k: k, v: v}
	m.ents = append(m.ents, e)
	m.n++
	if ck, ok := mapKey(kt, k); ok {
		m.idx[ck] = e
	} else {
		m.sym++
	}
}

func (t *thread) mapDelete(m *mapV, kt *tinfo, k Value) {
	e := t.mapFind(m, kt, k)
	if e == nil {
		return
	}
	e.dead = true
	m.n--
	if ck, ok := mapKey(kt, e.k); ok {
		delete(m.idx, ck)
	} else {
		m.sym--
	}
	for i, x := range m.ents {
		if x == e {
			ne := make([]*mapEntry, 0, len(m.ents)-1)
			ne = append(ne, m.ents[:i]...)
			ne = append(ne, m.ents[i+1:]...)
			m.ents = ne
			break
		}
	}
}
