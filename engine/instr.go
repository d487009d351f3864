package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// loadPtr reads the value a pointer refers to.
func (t *thread) loadPtr(p Value) Value {
	switch x := p.p.(type) {
	case *Value:
		if _, ok := x.p.(*agg); ok {
			return cp(*x)
		}
		return *x
	case *symElem:
		return t.loadSym(x)
	case nil:
		t.nilDeref()
	case *dataPtr:
		if len(x.a) > 0 {
			return x.a[0]
		}
	}
	t.unsupported("load through %T", p.p)
	return Value{}
}

func (t *thread) storePtr(p, v Value) {
	switch x := p.p.(type) {
	case *Value:
		if _, ok := v.p.(*agg); ok {
			storeTo(x, v)
			return
		}
		*x = v
		return
	case *symElem:
		f := t.run.f
		w := x.w
		nv := t.run.term(v, w)
		for i := range x.a {
			c := f.Eq(x.idx, f.Const(x.idx.w, uint64(i)))
			if c == f.False {
				continue
			}
			x.a[i] = t.run.val(f.Ite(c, nv, t.run.term(x.a[i], w)))
		}
		return
	case nil:
		t.nilDeref()
	}
	t.unsupported("store through %T", p.p)
}

func (t *thread) loadSym(x *symElem) Value {
	f := t.run.f
	allc := true
	for i := range x.a {
		if x.a[i].p != nil {
			allc = false
			break
		}
	}
	if allc {
		if x.w == 0 {
			tab := make([]uint64, len(x.a))
			for i := range tab {
				tab[i] = x.a[i].n
			}
			return t.run.val(f.Eq(f.Table(tab, x.idx, 1), f.Const(1, 1)))
		}
		tab := make([]uint64, len(x.a))
		for i := range tab {
			tab[i] = x.a[i].n
		}
		return t.run.val(f.Table(tab, x.idx, x.w))
	}
	var r *Term
	for i := len(x.a) - 1; i >= 0; i-- {
		v := t.run.term(x.a[i], x.w)
		if r == nil {
			r = v
			continue
		}
		r = f.Ite(f.Eq(x.idx, f.Const(x.idx.w, uint64(i))), v, r)
	}
	return t.run.val(r)
}

const symIdxMax = 1024

// index checks bounds and returns a concrete index, or a symbolic one.
func (t *thread) index(iv Value, it *tinfo, n int, allowSym bool) (int, *Term) {
	if iv.p == nil {
		i := iv.n
		if it.signed {
			s := sext(i, it.w)
			if s < 0 || s >= int64(n) {
				t.rtPanic("index out of range [%d] with length %d", s, n)
			}
			return int(s), nil
		}
		if i >= uint64(n) {
			t.rtPanic("index out of range [%d] with length %d", i, n)
		}
		return int(i), nil
	}
	f := t.run.f
	x := iv.p.(*Term)
	var ok *Term
	if it.w < 63 && uint64(n) > mask(it.w) && !it.signed {
		ok = f.True
	} else if it.signed {
		if it.w < 64 && int64(n) > int64(mask(it.w-1)) {
			ok = f.BNot(f.Slt(x, f.Const(it.w, 0)))
		} else {
			ok = f.Ult(x, f.Const(it.w, uint64(n)))
		}
	} else {
		ok = f.Ult(x, f.Const(it.w, uint64(n)))
	}
	if !t.run.branch(t, ok) {
		t.rtPanic("index out of range [symbolic] with length %d", n)
	}
	if allowSym && n <= symIdxMax {
		if k, isK := t.run.knownConst(x); isK {
			return int(k), nil
		}
		return 0, x
	}
	return int(t.run.concretise(t, x)), nil
}

func scalarK(x *tinfo) bool { return x.k == kInt || x.k == kBool || x.k == kFloat }

// coverage position
func (c *compiler) instr(in ssa.Instruction) cinstr {
	switch x := in.(type) {
	case *ssa.Alloc:
		d := c.slot(x)
		et := ti(x.Type().Underlying().(*types.Pointer).Elem())
		if !et.isRef() {
			return func(fr *frame) {
				v := zero(et)
				fr.r[d] = Value{p: &v}
			}
		}
		return func(fr *frame) { fr.r[d] = Value{p: new(Value)} }
	case *ssa.BinOp:
		d := c.slot(x)
		a, b := c.opd(x.X), c.opd(x.Y)
		fn := mkBinop(x.Op, x.X.Type(), x.Y.Type(), x.Type())
		pos := x.Pos()
		if x.Op == token.QUO || x.Op == token.REM {
			return func(fr *frame) { fr.pos = pos; fr.r[d] = fn(fr.t, fr.get(&a), fr.get(&b)) }
		}
		return func(fr *frame) { fr.r[d] = fn(fr.t, fr.get(&a), fr.get(&b)) }
	case *ssa.UnOp:
		return c.unop(x)
	case *ssa.Call:
		d := c.slot(x)
		f := c.callFn(&x.Call, x.Pos())
		return func(fr *frame) { fr.r[d] = f(fr) }
	case *ssa.ChangeInterface:
		d, a := c.slot(x), c.opd(x.X)
		return func(fr *frame) { fr.r[d] = fr.get(&a) }
	case *ssa.ChangeType:
		d, a := c.slot(x), c.opd(x.X)
		return func(fr *frame) { fr.r[d] = fr.get(&a) }
	case *ssa.Convert:
		d, a := c.slot(x), c.opd(x.X)
		f := mkConvert(x.X.Type(), x.Type())
		return func(fr *frame) { fr.r[d] = f(fr.t, fr.get(&a)) }
	case *ssa.MultiConvert:
		d, a := c.slot(x), c.opd(x.X)
		f := mkConvert(x.X.Type(), x.Type())
		return func(fr *frame) { fr.r[d] = f(fr.t, fr.get(&a)) }
	case *ssa.SliceToArrayPointer:
		d, a := c.slot(x), c.opd(x.X)
		n := int(x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		return func(fr *frame) {
			v := fr.get(&a)
			s := slc(v)
			if len(s) < n {
				fr.t.rtPanic("cannot convert slice with length %d to array or pointer to array with length %d", len(s), n)
			}
			if v.p == nil {
				fr.r[d] = Value{}
				return
			}
			fr.r[d] = Value{p: &Value{p: &agg{s[:n:n]}}}
		}
	case *ssa.MakeInterface:
		d, a := c.slot(x), c.opd(x.X)
		rt := rtOf(x.X.Type())
		return func(fr *frame) { fr.r[d] = mkIface(rt, fr.get(&a)) }
	case *ssa.Extract:
		d, a := c.slot(x), c.opd(x.Tuple)
		i := x.Index
		return func(fr *frame) { fr.r[d] = fr.get(&a).p.(*tuple).e[i] }
	case *ssa.Field:
		d, a := c.slot(x), c.opd(x.X)
		i := x.Field
		return func(fr *frame) { fr.r[d] = fr.get(&a).p.(*agg).e[i] }
	case *ssa.FieldAddr:
		d, a := c.slot(x), c.opd(x.X)
		i := x.Field
		pos := x.Pos()
		return func(fr *frame) {
			v := fr.get(&a)
			p, ok := v.p.(*Value)
			if !ok {
				fr.pos = pos
				if v.p == nil {
					fr.t.nilDeref()
				}
				fr.t.unsupported("field address through %T", v.p)
			}
			ag, ok := p.p.(*agg)
			if !ok {
				fr.pos = pos
				fr.t.unsupported("field address of %T (%v)", p.p, x.X.Type())
			}
			fr.r[d] = Value{p: &ag.e[i]}
		}
	case *ssa.IndexAddr:
		return c.indexAddr(x)
	case *ssa.Index:
		d, a, ix := c.slot(x), c.opd(x.X), c.opd(x.Index)
		it := ti(x.Index.Type())
		pos := x.Pos()
		if ti(x.X.Type()).k == kString {
			return func(fr *frame) {
				fr.pos = pos
				fr.r[d] = fr.t.strIndex(fr.get(&a), fr.get(&ix), it)
			}
		}
		et := ti(x.Type())
		return func(fr *frame) {
			fr.pos = pos
			ag := fr.get(&a).p.(*agg)
			i, s := fr.t.index(fr.get(&ix), it, len(ag.e), scalarK(et))
			if s != nil {
				fr.r[d] = fr.t.loadSym(&symElem{ag.e, s, et.w})
				return
			}
			fr.r[d] = ag.e[i]
		}
	case *ssa.Lookup:
		d, a, ix := c.slot(x), c.opd(x.X), c.opd(x.Index)
		pos := x.Pos()
		mt, ok := x.X.Type().Underlying().(*types.Map)
		if !ok {
			it := ti(x.Index.Type())
			return func(fr *frame) {
				fr.pos = pos
				fr.r[d] = fr.t.strIndex(fr.get(&a), fr.get(&ix), it)
			}
		}
		kt, vt := ti(mt.Key()), ti(mt.Elem())
		commaOk := x.CommaOk
		return func(fr *frame) {
			fr.pos = pos
			mv := fr.get(&a)
			var m *mapV
			if mv.p != nil {
				m = mv.p.(*mapV)
			}
			fr.t.mapAccess(m, false)
			e := fr.t.mapFind(m, kt, fr.get(&ix))
			var v Value
			if e != nil {
				v = e.v
			} else {
				v = zero(vt)
			}
			if commaOk {
				v = Value{p: &tuple{[]Value{v, vBool(e != nil)}}}
			}
			fr.r[d] = v
		}
	case *ssa.MapUpdate:
		a, k, v := c.opd(x.Map), c.opd(x.Key), c.opd(x.Value)
		kt := ti(x.Map.Type().Underlying().(*types.Map).Key())
		pos := x.Pos()
		return func(fr *frame) {
			fr.pos = pos
			mv := fr.get(&a)
			if mv.p == nil {
				fr.t.throw(mkIface(fr.run.eng.rtPlainErr, goStr("assignment to entry in nil map")))
			}
			fr.t.mapAccess(mv.p.(*mapV), true)
			fr.t.mapSet(mv.p.(*mapV), kt, fr.get(&k), fr.get(&v))
		}
	case *ssa.MakeMap:
		d := c.slot(x)
		return func(fr *frame) { fr.r[d] = Value{p: newMap()} }
	case *ssa.MakeChan:
		d, a := c.slot(x), c.opd(x.Size)
		return func(fr *frame) {
			n := int64(fr.t.concInt(fr.get(&a)))
			if n < 0 {
				fr.t.rtPanic("makechan: size out of range")
			}
			fr.r[d] = Value{p: newChan(int(n))}
		}
	case *ssa.MakeClosure:
		d := c.slot(x)
		fn := x.Fn.(*ssa.Function)
		cf := c.e.cfuncOf(fn)
		var bs []opd
		for _, b := range x.Bindings {
			bs = append(bs, c.opd(b))
		}
		return func(fr *frame) {
			env := make([]Value, len(bs))
			for i := range bs {
				env[i] = fr.get(&bs[i])
			}
			fr.r[d] = Value{p: &closure{fn: fn, cf: cf, env: env}}
		}
	case *ssa.MakeSlice:
		d, l, cc := c.slot(x), c.opd(x.Len), c.opd(x.Cap)
		et := ti(x.Type().Underlying().(*types.Slice).Elem())
		lt, ct := ti(x.Len.Type()), ti(x.Cap.Type())
		pos := x.Pos()
		esz := sizeof(x.Type().Underlying().(*types.Slice).Elem())
		return func(fr *frame) {
			fr.pos = pos
			fr.r[d] = fr.t.makeSlice(et, esz, fr.get(&l), lt, fr.get(&cc), ct)
		}
	case *ssa.Slice:
		return c.slice(x)
	case *ssa.Store:
		a, v := c.opd(x.Addr), c.opd(x.Val)
		pos := x.Pos()
		race := c.race && !isLocal(x.Addr)
		return func(fr *frame) {
			p := fr.get(&a)
			if pv, ok := p.p.(*Value); ok {
				if race && fr.run.raceCheck {
					fr.pos = pos
					fr.t.memAccess(pv, true)
				}
				val := fr.get(&v)
				if _, isA := val.p.(*agg); isA {
					storeTo(pv, val)
				} else {
					*pv = val
				}
				return
			}
			fr.pos = pos
			fr.t.storePtr(p, fr.get(&v))
		}
	case *ssa.TypeAssert:
		return c.typeAssert(x)
	case *ssa.Range:
		d, a := c.slot(x), c.opd(x.X)
		if ti(x.X.Type()).k == kString {
			return func(fr *frame) { fr.r[d] = Value{p: &iterV{str: strBytes(fr.get(&a))}} }
		}
		return func(fr *frame) {
			it := &iterV{}
			v := fr.get(&a)
			if v.p != nil {
				m := v.p.(*mapV)
				fr.t.mapAccess(m, false)
				it.m = m
				it.todo = append(it.todo, m.ents...)
			}
			fr.r[d] = Value{p: it}
		}
	case *ssa.Next:
		d, a := c.slot(x), c.opd(x.Iter)
		if x.IsString {
			return func(fr *frame) {
				it := fr.get(&a).p.(*iterV)
				if it.pos >= len(it.str) {
					fr.r[d] = Value{p: &tuple{[]Value{{}, {}, {}}}}
					return
				}
				r, n := fr.t.decodeRune(it.str[it.pos:])
				fr.r[d] = Value{p: &tuple{[]Value{{n: 1}, {n: uint64(it.pos)}, r}}}
				it.pos += n
			}
		}
		tt := x.Type().(*types.Tuple)
		kz, vz := Value{}, Value{}
		_ = tt
		return func(fr *frame) {
			it := fr.get(&a).p.(*iterV)
			for {
				live := it.todo[:0]
				for _, e := range it.todo {
					if !e.dead {
						live = append(live, e)
					}
				}
				it.todo = live
				if len(it.todo) == 0 {
					fr.r[d] = Value{p: &tuple{[]Value{{}, kz, vz}}}
					return
				}
				i := 0
				if fr.run.mapOrder && len(it.todo) > 1 && len(it.todo) <= 4 {
					i = fr.run.choose(fr.t, "maporder", len(it.todo))
				}
				e := it.todo[i]
				nt := make([]*mapEntry, 0, len(it.todo))
				nt = append(nt, it.todo[:i]...)
				it.todo = append(nt, it.todo[i+1:]...)
				fr.r[d] = Value{p: &tuple{[]Value{{n: 1}, e.k, e.v}}}
				return
			}
		}
	case *ssa.Jump:
		n := x.Block().Succs[0].Index
		return func(fr *frame) { fr.next = n }
	case *ssa.If:
		a := c.opd(x.Cond)
		y, n := x.Block().Succs[0].Index, x.Block().Succs[1].Index
		pos := token.NoPos
		if in, ok := x.Cond.(ssa.Instruction); ok {
			pos = in.Pos()
		}
		return func(fr *frame) {
			v := fr.get(&a)
			var b bool
			if v.p == nil {
				b = v.n != 0
			} else {
				fr.pos = pos
				b = fr.run.branch(fr.t, v.p.(*Term))
			}
			if b {
				fr.next = y
			} else {
				fr.next = n
			}
		}
	case *ssa.Return:
		var os []opd
		for _, r := range x.Results {
			os = append(os, c.opd(r))
		}
		switch len(os) {
		case 0:
			return func(fr *frame) { fr.next = -1 }
		case 1:
			return func(fr *frame) { fr.result = fr.get(&os[0]); fr.next = -1 }
		}
		return func(fr *frame) {
			e := make([]Value, len(os))
			for i := range os {
				e[i] = fr.get(&os[i])
			}
			fr.result = Value{p: &tuple{e}}
			fr.next = -1
		}
	case *ssa.Panic:
		a := c.opd(x.X)
		pos := x.Pos()
		return func(fr *frame) {
			fr.pos = pos
			v := fr.get(&a)
			if v.p == nil {
				v = mkIface(fr.run.eng.rtErrString, goStr("panic called with nil argument"))
			}
			fr.t.throw(v)
		}
	case *ssa.RunDefers:
		return func(fr *frame) {
			fr.runDefers()
			if fr.panicking != nil {
				tp := fr.panicking
				fr.panicking = nil
				panic(tp)
			}
		}
	case *ssa.Defer:
		f := c.deferCall(&x.Call, x.Pos())
		return func(fr *frame) { fr.defers = append(fr.defers, f(fr)) }
	case *ssa.Go:
		f := c.deferCall(&x.Call, x.Pos())
		pos := x.Pos()
		return func(fr *frame) {
			fr.pos = pos
			fr.t.spawn(f)
		}
	case *ssa.Send:
		a, v := c.opd(x.Chan), c.opd(x.X)
		pos := x.Pos()
		return func(fr *frame) {
			fr.pos = pos
			fr.t.chanSend(fr.get(&a), fr.get(&v))
		}
	case *ssa.Select:
		return c.sel(x)
	}
	panic(fmt.Sprintf("instr %T", in))
}

func (t *thread) strIndex(s, iv Value, it *tinfo) Value {
	i, sym := t.index(iv, it, strLen(s), true)
	if sym != nil {
		return t.loadSym(&symElem{strBytes(s), sym, 8})
	}
	switch x := s.p.(type) {
	case string:
		return Value{n: uint64(x[i])}
	case *symStr:
		return x.b[i]
	}
	panic("strIndex")
}

func (c *compiler) unop(x *ssa.UnOp) cinstr {
	d, a := c.slot(x), c.opd(x.X)
	pos := x.Pos()
	switch x.Op {
	case token.MUL:
		race := c.race && !isLocal(x.X)
		if g, ok := x.X.(*ssa.Global); ok {
			return func(fr *frame) {
				p := fr.run.global(fr.t, g)
				if race && fr.run.raceCheck {
					fr.pos = pos
					fr.t.memAccess(p, false)
				}
				if _, ok := p.p.(*agg); ok {
					fr.r[d] = cp(*p)
				} else {
					fr.r[d] = *p
				}
			}
		}
		return func(fr *frame) {
			p := fr.get(&a)
			if c, ok := p.p.(*Value); ok {
				if race && fr.run.raceCheck {
					fr.pos = pos
					fr.t.memAccess(c, false)
				}
				if _, isA := c.p.(*agg); isA {
					fr.r[d] = cp(*c)
				} else {
					fr.r[d] = *c
				}
				return
			}
			fr.pos = pos
			fr.r[d] = fr.t.loadPtr(p)
		}
	case token.ARROW:
		commaOk := x.CommaOk
		et := ti(x.X.Type().Underlying().(*types.Chan).Elem())
		return func(fr *frame) {
			fr.pos = pos
			v, ok := fr.t.chanRecv(fr.get(&a))
			if !ok {
				v = zero(et)
			}
			if commaOk {
				v = Value{p: &tuple{[]Value{v, vBool(ok)}}}
			}
			fr.r[d] = v
		}
	case token.NOT:
		return func(fr *frame) { fr.r[d] = fr.t.notV(fr.get(&a)) }
	case token.SUB:
		t := ti(x.X.Type())
		w := t.w
		if t.k == kFloat {
			return func(fr *frame) {
				v := fr.get(&a)
				if v.p == nil {
					fr.r[d] = Value{n: v.n ^ 1<<uint(w-1)}
					return
				}
				fr.r[d] = fr.run.val(fr.run.f.Xor(v.p.(*Term), fr.run.f.Const(w, 1<<uint(w-1))))
			}
		}
		return func(fr *frame) {
			v := fr.get(&a)
			if v.p == nil {
				fr.r[d] = Value{n: -v.n & mask(w)}
				return
			}
			fr.r[d] = fr.run.val(fr.run.f.Neg(v.p.(*Term)))
		}
	case token.XOR:
		w := ti(x.X.Type()).w
		return func(fr *frame) {
			v := fr.get(&a)
			if v.p == nil {
				fr.r[d] = Value{n: ^v.n & mask(w)}
				return
			}
			fr.r[d] = fr.run.val(fr.run.f.Not(v.p.(*Term)))
		}
	}
	panic("unop " + x.Op.String())
}

func (c *compiler) indexAddr(x *ssa.IndexAddr) cinstr {
	d, a, ix := c.slot(x), c.opd(x.X), c.opd(x.Index)
	it := ti(x.Index.Type())
	pos := x.Pos()
	var et *tinfo
	isSlice := false
	switch u := x.X.Type().Underlying().(type) {
	case *types.Slice:
		et = ti(u.Elem())
		isSlice = true
	case *types.Pointer:
		et = ti(u.Elem().Underlying().(*types.Array).Elem())
	}
	sc := scalarK(et)
	return func(fr *frame) {
		var arr []Value
		v := fr.get(&a)
		if isSlice {
			if v.p != nil {
				arr = v.p.(*slice).a
			}
		} else {
			p, ok := v.p.(*Value)
			if !ok {
				fr.pos = pos
				if v.p == nil {
					fr.t.nilDeref()
				}
				fr.t.unsupported("index address through %T", v.p)
			}
			arr = p.p.(*agg).e
		}
		iv := fr.get(&ix)
		if iv.p == nil && iv.n < uint64(len(arr)) {
			fr.r[d] = Value{p: &arr[iv.n]}
			return
		}
		fr.pos = pos
		i, s := fr.t.index(iv, it, len(arr), sc)
		if s != nil {
			fr.r[d] = Value{p: &symElem{arr, s, et.w}}
			return
		}
		fr.r[d] = Value{p: &arr[i]}
	}
}

func (c *compiler) slice(x *ssa.Slice) cinstr {
	d, a := c.slot(x), c.opd(x.X)
	var lo, hi, mx opd
	hl, hh, hm := x.Low != nil, x.High != nil, x.Max != nil
	var lt, ht, mt *tinfo
	if hl {
		lo, lt = c.opd(x.Low), ti(x.Low.Type())
	}
	if hh {
		hi, ht = c.opd(x.High), ti(x.High.Type())
	}
	if hm {
		mx, mt = c.opd(x.Max), ti(x.Max.Type())
	}
	pos := x.Pos()
	k := ti(x.X.Type()).k
	return func(fr *frame) {
		fr.pos = pos
		t := fr.t
		v := fr.get(&a)
		var arr []Value
		var ln, cap_ int
		switch k {
		case kString:
			ln = strLen(v)
			cap_ = ln
		case kSlice:
			arr = slc(v)
			ln, cap_ = len(arr), cap(arr)
		default: // pointer to array
			p, ok := v.p.(*Value)
			if !ok {
				if v.p == nil {
					t.nilDeref()
				}
				t.unsupported("slice of %T", v.p)
			}
			arr = p.p.(*agg).e
			ln, cap_ = len(arr), cap(arr)
		}
		l, h, m := 0, ln, cap_
		if hm {
			m = t.boundIdx(fr.get(&mx), mt, cap_, "slice bounds out of range [::%d] with capacity %d")
		}
		if hh {
			h = t.boundIdx(fr.get(&hi), ht, m, "slice bounds out of range [:%d] with capacity %d")
		} else if h > m {
			t.rtPanic("slice bounds out of range [:%d] with capacity %d", h, m)
		}
		if hl {
			l = t.boundIdx(fr.get(&lo), lt, h, "slice bounds out of range [%d:%d]")
		} else if l > h {
			t.rtPanic("slice bounds out of range")
		}
		if k == kString {
			switch s := v.p.(type) {
			case nil:
				fr.r[d] = v
			case string:
				fr.r[d] = goStr(s[l:h])
			case *symStr:
				fr.r[d] = mkStrV(s.b[l:h])
			}
			return
		}
		if v.p == nil {
			fr.r[d] = v
			return
		}
		fr.r[d] = mkSlice(arr[l:h:m])
	}
}

// boundIdx evaluates a slice bound: 0 <= v <= limit.
func (t *thread) boundIdx(v Value, it *tinfo, limit int, msg string) int {
	if v.p == nil {
		i := int64(v.n)
		if it.signed {
			i = sext(v.n, it.w)
		}
		if i < 0 || i > int64(limit) {
			t.rtPanic(msg, i, limit)
		}
		return int(i)
	}
	f := t.run.f
	x := v.p.(*Term)
	if it.w < 64 {
		if it.signed {
			x = f.SExt(x, 64)
		} else {
			x = f.ZExt(x, 64)
		}
	}
	if !t.run.branch(t, f.Ule(x, f.Const(64, uint64(limit)))) {
		t.rtPanic(msg, -1, limit)
	}
	return int(t.run.concretise(t, x))
}

func (t *thread) makeSlice(et *tinfo, esz int64, l Value, lt *tinfo, c Value, ct *tinfo) Value {
	f := t.run.f
	ext := func(v Value, it *tinfo) *Term {
		x := t.run.term(v, it.w)
		if it.signed {
			return f.SExt(x, 64)
		}
		return f.ZExt(x, 64)
	}
	lim := uint64(1<<47) / uint64(max(esz, 1))
	check := func(v Value, it *tinfo, what string) int {
		x := ext(v, it)
		if !t.run.branch(t, f.Ule(x, f.Const(64, lim))) {
			t.rtPanic("makeslice: %s out of range", what)
		}
		t.allocCheck(x, esz)
		n := t.run.concretise(t, x)
		return int(n)
	}
	n := check(l, lt, "len")
	m := n
	if !(c.p == l.p && c.n == l.n) {
		m = check(c, ct, "cap")
		if m < n {
			t.rtPanic("makeslice: cap out of range")
		}
	}
	if m > engineMaxElems {
		t.unsupported("allocation of %d elements", m)
	}
	a := make([]Value, m)
	if !et.isRef() {
		for i := range a {
			a[i] = zero(et)
		}
	}
	return mkSlice(a[:n])
}

const engineMaxElems = 1 << 21

// allocCheck reports an allocation above the limit set by the harness.
func (t *thread) allocCheck(n *Term, esz int64) {
	r := t.run
	if r.allocLimit <= 0 {
		return
	}
	f := r.f
	maxN := uint64(r.allocLimit / max(esz, 1))
	if r.branch(t, f.Ult(f.Const(64, maxN), n)) {
		// the native run measures in megabytes: report a size it can tell
		const big, huge = 64 << 20, 1 << 30
		if f.Eval(n) <= uint64(big/max(esz, 1)) {
			above := f.Ult(f.Const(64, uint64(big/max(esz, 1))), n)
			if !r.likely(f.BAnd(above, f.Ult(n, f.Const(64, uint64(huge/max(esz, 1)))))) {
				r.likely(above)
			}
		}
		v := f.Eval(n)
		t.violation("alloc", fmt.Sprintf("allocates %d elements of %d bytes (limit %d bytes)", v, esz, r.allocLimit))
	}
}

func (c *compiler) typeAssert(x *ssa.TypeAssert) cinstr {
	d, a := c.slot(x), c.opd(x.X)
	rt := rtOf(x.AssertedType)
	at := ti(x.AssertedType)
	pos := x.Pos()
	commaOk := x.CommaOk
	isIf := types.IsInterface(x.AssertedType)
	asIface, _ := x.AssertedType.Underlying().(*types.Interface)
	return func(fr *frame) {
		v := fr.get(&a)
		i := ifc(v)
		ok := false
		var res Value
		if i != nil {
			if isIf {
				ok = implements(i.rt, asIface)
				res = v
			} else {
				ok = i.rt == rt
				res = i.v
			}
		}
		if commaOk {
			if !ok {
				res = zero(at)
			}
			fr.r[d] = Value{p: &tuple{[]Value{res, vBool(ok)}}}
			return
		}
		if !ok {
			fr.pos = pos
			dyn := "nil"
			if i != nil {
				dyn = i.rt.String()
			}
			fr.t.rtPanic("interface conversion: interface is %s, not %s", dyn, x.AssertedType)
		}
		fr.r[d] = res
	}
}

func (r *rtype) String() string {
	if r == rtypeRT {
		return "*reflect.rtype"
	}
	return types.TypeString(r.t, func(p *types.Package) string { return p.Name() })
}

type implKey struct {
	rt *rtype
	it *types.Interface
}

func implements(rt *rtype, it *types.Interface) bool {
	if it.NumMethods() == 0 {
		return true
	}
	if rt == rtypeRT {
		// reflect.Type and fmt.Stringer
		for i := 0; i < it.NumMethods(); i++ {
			if _, ok := rtypeMethods[it.Method(i).Name()]; !ok {
				return false
			}
		}
		return true
	}
	k := implKey{rt, it}
	if v, ok := implCache.Load(k); ok {
		return v.(bool)
	}
	b := types.Implements(rt.t, it)
	implCache.Store(k, b)
	return b
}

// method finds the implementation of an interface method.
func (e *Engine) method(rt *rtype, m *types.Func) *ssa.Function {
	id := m.Id()
	rt.mu.Lock()
	defer rt.mu.Unlock()
	if f, ok := rt.ms[id]; ok {
		return f
	}
	sel := e.msets.MethodSet(rt.t).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		rt.ms[id] = nil
		return nil
	}
	f := e.prog.prog.MethodValue(sel)
	rt.ms[id] = f
	return f
}

func (c *compiler) callFn(call *ssa.CallCommon, pos token.Pos) func(fr *frame) Value {
	var args []opd
	for _, a := range call.Args {
		args = append(args, c.opd(a))
	}
	if call.IsInvoke() {
		recv := c.opd(call.Value)
		m := call.Method
		return func(fr *frame) Value {
			v := fr.get(&recv)
			i := ifc(v)
			fr.pos = pos
			if i == nil {
				fr.t.nilDeref()
			}
			as := make([]Value, len(args)+1)
			as[0] = i.v
			for j := range args {
				as[j+1] = fr.get(&args[j])
			}
			return fr.t.invoke(fr, i, m, as, pos)
		}
	}
	switch fn := call.Value.(type) {
	case *ssa.Builtin:
		return c.builtin(fn, call, args, pos)
	case *ssa.Function:
		cf := c.e.cfuncOf(fn)
		return func(fr *frame) Value {
			as := make([]Value, len(args))
			for j := range args {
				as[j] = fr.get(&args[j])
			}
			return fr.t.callFn(fr, cf, as, nil, pos)
		}
	}
	fv := c.opd(call.Value)
	return func(fr *frame) Value {
		as := make([]Value, len(args))
		for j := range args {
			as[j] = fr.get(&args[j])
		}
		fr.pos = pos
		return fr.t.call(fr, fr.get(&fv), as, pos)
	}
}

func (t *thread) invoke(fr *frame, i *ifaceV, m *types.Func, as []Value, pos token.Pos) Value {
	if i.rt == rtypeRT {
		fn, ok := rtypeMethods[m.Name()]
		if !ok {
			t.unsupported("reflect.Type.%s", m.Name())
		}
		return fn(t, as)
	}
	f := t.run.eng.method(i.rt, m)
	if f == nil {
		t.unsupported("no method %s on %s", m.Name(), i.rt)
	}
	return t.callFn(fr, t.run.eng.cfuncOf(f), as, nil, pos)
}

// deferCall evaluates the operands now and returns the delayed call.
func (c *compiler) deferCall(call *ssa.CallCommon, pos token.Pos) func(fr *frame) func() {
	var args []opd
	for _, a := range call.Args {
		args = append(args, c.opd(a))
	}
	eval := func(fr *frame, off int) []Value {
		as := make([]Value, len(args)+off)
		for j := range args {
			as[j+off] = fr.get(&args[j])
		}
		return as
	}
	if call.IsInvoke() {
		recv := c.opd(call.Value)
		m := call.Method
		return func(fr *frame) func() {
			i := ifc(fr.get(&recv))
			if i == nil {
				fr.pos = pos
				fr.t.nilDeref()
			}
			as := eval(fr, 1)
			as[0] = i.v
			return func() { curThread(fr).invoke(callerOf(fr), i, m, as, pos) }
		}
	}
	if b, ok := call.Value.(*ssa.Builtin); ok {
		return func(fr *frame) func() {
			as := eval(fr, 0)
			return func() { runBuiltin(curThread(fr), callerOf(fr), b, call, as, pos) }
		}
	}
	fv := c.opd(call.Value)
	return func(fr *frame) func() {
		f := fr.get(&fv)
		as := eval(fr, 0)
		return func() { curThread(fr).call(callerOf(fr), f, as, pos) }
	}
}

// A delayed call runs either in its own frame's thread (defer) or, for go
// statements, in the thread recorded in run.cur.
func curThread(fr *frame) *thread { return fr.run.cur }

func callerOf(fr *frame) *frame {
	if fr.run.cur == fr.t {
		return fr
	}
	return nil
}

func (c *compiler) builtin(fn *ssa.Builtin, call *ssa.CallCommon, args []opd, pos token.Pos) func(fr *frame) Value {
	if fn.Name() == "len" && len(args) == 1 {
		k := ti(call.Args[0].Type()).k
		a := args[0]
		if k == kSlice {
			return func(fr *frame) Value {
				v := fr.get(&a)
				if v.p == nil {
					return Value{}
				}
				return Value{n: uint64(len(v.p.(*slice).a))}
			}
		}
	}
	return func(fr *frame) Value {
		as := make([]Value, len(args))
		for j := range args {
			as[j] = fr.get(&args[j])
		}
		fr.pos = pos
		return runBuiltin(fr.t, fr, fn, call, as, pos)
	}
}

func runBuiltin(t *thread, fr *frame, fn *ssa.Builtin, call *ssa.CallCommon, as []Value, pos token.Pos) Value {
	switch fn.Name() {
	case "len", "cap":
		v := as[0]
		switch x := v.p.(type) {
		case nil:
			return Value{}
		case *slice:
			if fn.Name() == "cap" {
				return vInt(cap(x.a))
			}
			return vInt(len(x.a))
		case string:
			return vInt(len(x))
		case *symStr:
			return vInt(len(x.b))
		case *mapV:
			t.mapAccess(x, false)
			return vInt(x.n)
		case *chanV:
			if fn.Name() == "cap" {
				return vInt(x.cap)
			}
			return vInt(len(x.buf))
		case *agg:
			return vInt(len(x.e))
		case *Value:
			return vInt(len(x.p.(*agg).e))
		}
	case "append":
		if len(as) == 1 {
			return as[0]
		}
		var add []Value
		switch x := as[1].p.(type) {
		case nil:
		case *slice:
			add = x.a
		case string, *symStr:
			add = strBytes(as[1])
		default:
			t.unsupported("append %T", x)
		}
		base := slc(as[0])
		if len(add) == 0 {
			return as[0]
		}
		n := len(base) + len(add)
		var et *tinfo
		if st, ok := call.Args[0].Type().Underlying().(*types.Slice); ok {
			et = ti(st.Elem())
		}
		if n <= cap(base) {
			r := base[:n]
			copyVals(r[len(base):], add, et)
			return mkSlice(r)
		}
		nc := cap(base) * 2
		if nc > 512 {
			nc = cap(base) + cap(base)/4 + 192
		}
		nc = max(nc, n, 8)
		if n > engineMaxElems {
			t.unsupported("append to %d elements", n)
		}
		r := make([]Value, n, nc)
		copy(r, base)
		if et != nil && !et.isRef() {
			for i := range base {
				r[i] = cp(base[i])
			}
			for i := range add {
				r[len(base)+i] = cp(add[i])
			}
			ext := r[n:nc]
			for i := range ext {
				ext[i] = zero(et)
			}
		} else {
			copy(r[len(base):], add)
		}
		return mkSlice(r)
	case "copy":
		dst := slc(as[0])
		var src []Value
		switch x := as[1].p.(type) {
		case nil:
		case *slice:
			src = x.a
		default:
			src = strBytes(as[1])
		}
		n := min(len(dst), len(src))
		var et *tinfo
		if st, ok := call.Args[0].Type().Underlying().(*types.Slice); ok {
			et = ti(st.Elem())
		}
		copyVals(dst[:n], src[:n], et)
		return vInt(n)
	case "delete":
		if as[0].p == nil {
			return Value{}
		}
		t.mapAccess(as[0].p.(*mapV), true)
		t.mapDelete(as[0].p.(*mapV), ti(call.Args[0].Type().Underlying().(*types.Map).Key()), as[1])
		return Value{}
	case "clear":
		switch x := as[0].p.(type) {
		case *mapV:
			for _, e := range x.ents {
				e.dead = true
			}
			x.ents, x.idx, x.n, x.sym = nil, map[any]*mapEntry{}, 0, 0
		case *slice:
			et := ti(call.Args[0].Type().Underlying().(*types.Slice).Elem())
			for i := range x.a {
				storeTo(&x.a[i], zero(et))
			}
		}
		return Value{}
	case "close":
		t.chanClose(as[0])
		return Value{}
	case "panic":
		v := as[0]
		if v.p == nil {
			v = mkIface(t.run.eng.rtErrString, goStr("panic called with nil argument"))
		}
		t.throw(v)
	case "recover":
		// fr is the deferred function's frame
		if fr != nil && fr.caller != nil && fr.caller.panicking != nil {
			tp := fr.caller.panicking
			fr.caller.panicking = nil
			return tp.v
		}
		return Value{}
	case "print", "println":
		return Value{}
	case "min", "max":
		x := ti(call.Args[0].Type())
		r := as[0]
		for _, b := range as[1:] {
			op := token.LSS
			lt := t.binop(op, x, b, r)
			if fn.Name() == "max" {
				lt = t.binop(op, x, r, b)
			}
			if lt.p == nil {
				if lt.n != 0 {
					r = b
				}
			} else if scalarK(x) {
				f := t.run.f
				r = t.run.val(f.Ite(lt.p.(*Term), t.run.term(b, x.w), t.run.term(r, x.w)))
			} else if t.cond(lt) {
				r = b
			}
		}
		return r
	case "ssa:wrapnilchk":
		if as[0].p == nil {
			t.rtPanic("value method called using nil pointer")
		}
		return as[0]
	case "ssa:deferstack":
		return Value{}
	case "real", "imag", "complex":
		t.unsupported("complex numbers")
	case "SliceData":
		return Value{p: &dataPtr{slc(as[0])}}
	case "StringData":
		return Value{p: &dataPtr{strBytes(as[0])}}
	case "String":
		n := int(t.concInt(as[1]))
		switch x := as[0].p.(type) {
		case nil:
			return Value{}
		case *dataPtr:
			return mkStrV(x.a[:n])
		case *Value:
			if n == 1 {
				return mkStrV([]Value{*x})
			}
		}
		t.unsupported("unsafe.String of %T", as[0].p)
	case "Slice":
		n := int(t.concInt(as[1]))
		switch x := as[0].p.(type) {
		case nil:
			return Value{}
		case *dataPtr:
			return mkSlice(x.a[:n:n])
		}
		t.unsupported("unsafe.Slice of %T", as[0].p)
	}
	t.unsupported("builtin %s", fn.Name())
	return Value{}
}

func (t *thread) binop(op token.Token, x *tinfo, a, b Value) Value {
	return mkBinop(op, x.t, x.t, types.Typ[types.Bool])(t, a, b)
}

func copyVals(dst, src []Value, et *tinfo) {
	if et == nil || et.isRef() {
		copy(dst, src)
		return
	}
	// handle overlap by copying first
	tmp := make([]Value, len(src))
	for i := range src {
		tmp[i] = cp(src[i])
	}
	for i := range tmp {
		storeTo(&dst[i], tmp[i])
	}
}

func (c *compiler) sel(x *ssa.Select) cinstr {
	d := c.slot(x)
	type st struct {
		dir  types.ChanDir
		ch   opd
		val  opd
		et   *tinfo
		send bool
	}
	var sts []st
	for _, s := range x.States {
		y := st{dir: s.Dir, ch: c.opd(s.Chan), send: s.Dir == types.SendOnly}
		if y.send {
			y.val = c.opd(s.Send)
		}
		y.et = ti(s.Chan.Type().Underlying().(*types.Chan).Elem())
		sts = append(sts, y)
	}
	blocking := x.Blocking
	pos := x.Pos()
	return func(fr *frame) {
		fr.pos = pos
		cases := make([]selCase, len(sts))
		for i := range sts {
			cases[i].send = sts[i].send
			v := fr.get(&sts[i].ch)
			if v.p != nil {
				cases[i].ch = v.p.(*chanV)
			}
			if sts[i].send {
				cases[i].val = fr.get(&sts[i].val)
			}
		}
		idx, v, ok := fr.t.doSelect(cases, blocking)
		res := []Value{vInt(idx), vBool(ok)}
		for i := range sts {
			if sts[i].send {
				continue
			}
			if i == idx && ok {
				res = append(res, v)
			} else {
				res = append(res, zero(sts[i].et))
			}
		}
		fr.r[d] = Value{p: &tuple{res}}
	}
}

var stdSizes = types.SizesFor("gc", "amd64")

func sizeof(t types.Type) int64 { return stdSizes.Sizeof(t) }
