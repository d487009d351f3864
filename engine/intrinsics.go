package main

import (
	"bytes"
	"crypto/md5"
	"encoding/binary"
	"fmt"
	"go/types"
	"math"
	"math/big"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type natFn = func(t *thread, fr *frame, args []Value) Value

var implCache sync.Map

var intrinsics = map[string]natFn{}

func tup(vs ...Value) Value { return Value{p: &tuple{vs}} }

func regI(f natFn, names ...string) {
	for _, n := range names {
		intrinsics[n] = f
	}
}

func nop(t *thread, fr *frame, a []Value) Value { return Value{} }

type sideKey struct {
	p   *Value
	tag string
}

// sideOf gives the engine-side state of an object identified by address.
func sideOf[T any](t *thread, k *Value, tag string) *T {
	m := t.run.side
	if v, ok := m[sideKey{k, tag}]; ok {
		return v.(*T)
	}
	n := new(T)
	m[sideKey{k, tag}] = n
	return n
}

type onceS struct{ done bool }
type wgS struct{ n int64 }
type smapS struct{ m *mapV }
type condS struct{ q []*bool }
type poolS struct{ items []Value }

var anyTI = ti(types.NewInterfaceType(nil, nil))

// mkErr builds an error with errors.New.
func (t *thread) mkErr(msg Value) Value {
	fn := t.run.eng.prog.pkgs["errors"].Func("New")
	return t.callFn(t.top, t.run.eng.cfuncOf(fn), []Value{msg}, nil, 0)
}

func (e *Engine) stdType(pkg, name string) types.Type {
	p := e.prog.tpkgs[pkg]
	if p == nil {
		return nil
	}
	o := p.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	return o.Type()
}

func (e *Engine) setup() error {
	es, pe := e.stdType("runtime", "errorString"), e.stdType("runtime", "plainError")
	if es == nil || pe == nil {
		return fmt.Errorf("runtime error types not found")
	}
	e.rtErrString = rtOf(es)
	e.rtPlainErr = rtOf(pe)
	e.memoTab = map[string]*Value{}
	e.memo = map[string]func(t *thread, caller *frame, cf *cfunc, args, env []Value) Value{}
	for _, n := range []string{"github.com/sigurn/crc8.MakeTable", "hash/crc32.simpleMakeTable", "hash/crc32.MakeTable"} {
		e.memo[n] = memoCall
	}
	e.memo["io.CopyN"] = copyNDiscard
	return nil
}

// copyNDiscard skips n bytes of a bytes.Reader in one step; every other use
// of io.CopyN runs the library's code.
func copyNDiscard(t *thread, caller *frame, cf *cfunc, args, env []Value) Value {
	e := t.run.eng
	d, s := ifc(args[0]), ifc(args[1])
	dt, bt := e.stdType("io", "discard"), e.stdType("bytes", "Reader")
	if d == nil || s == nil || dt == nil || bt == nil || !types.Identical(d.rt.t, dt) || !types.Identical(s.rt.t, types.NewPointer(bt)) {
		return t.execFn(caller, cf, args, env)
	}
	cell, ok := s.v.p.(*Value)
	if !ok {
		return t.execFn(caller, cf, args, env)
	}
	a, ok := cell.p.(*agg)
	si, ii, pi := fieldIdx(bt, "s"), fieldIdx(bt, "i"), fieldIdx(bt, "prevRune")
	if !ok || si < 0 || ii < 0 || pi < 0 {
		return t.execFn(caller, cf, args, env)
	}
	f := t.run.f
	n := t.run.term(args[2], 64)
	if t.run.branch(t, f.Sle(n, f.Const(64, 0))) {
		return tup(Value{}, Value{})
	}
	L := f.Const(64, uint64(len(slc(a.e[si]))))
	i := t.run.term(a.e[ii], 64)
	eof := *t.run.global(t, e.prog.pkgs["io"].Var("EOF"))
	set := func(x *Term) {
		a.e[ii] = t.run.val(x)
		a.e[pi] = t.run.val(f.Const(64, ^uint64(0)))
	}
	if t.run.branch(t, f.Sle(L, i)) {
		return tup(Value{}, eof)
	}
	rest := f.Sub(L, i)
	if t.run.branch(t, f.Sle(n, rest)) {
		set(f.Add(i, n))
		return tup(args[2], Value{})
	}
	set(L)
	return tup(t.run.val(rest), eof)
}

func memoCall(t *thread, caller *frame, cf *cfunc, args, env []Value) Value {
	e := t.run.eng
	key := cf.name
	for _, a := range args {
		if !concKey(&key, a) {
			return t.execFn(caller, cf, args, env)
		}
	}
	e.memoMu.Lock()
	m := e.memoTab[key]
	e.memoMu.Unlock()
	if m == nil {
		r := t.execFn(caller, cf, args, env)
		c := deepCopy(r, map[any]any{})
		e.memoMu.Lock()
		e.memoTab[key] = &c
		e.memoMu.Unlock()
		return r
	}
	return deepCopy(*m, map[any]any{})
}

func concKey(s *string, v Value) bool {
	switch x := v.p.(type) {
	case nil:
		*s += fmt.Sprintf("|%d", v.n)
		return true
	case string:
		*s += "|" + x
		return true
	case *agg:
		for _, e := range x.e {
			if !concKey(s, e) {
				return false
			}
		}
		return true
	}
	return false
}

func deepCopy(v Value, seen map[any]any) Value {
	switch x := v.p.(type) {
	case *agg:
		n := &agg{make([]Value, len(x.e))}
		for i := range x.e {
			n.e[i] = deepCopy(x.e[i], seen)
		}
		return Value{p: n}
	case *tuple:
		n := &tuple{make([]Value, len(x.e))}
		for i := range x.e {
			n.e[i] = deepCopy(x.e[i], seen)
		}
		return Value{p: n}
	case *Value:
		if y, ok := seen[x]; ok {
			return Value{p: y.(*Value)}
		}
		n := new(Value)
		seen[x] = n
		*n = deepCopy(*x, seen)
		return Value{p: n}
	case *slice:
		n := &slice{make([]Value, len(x.a))}
		for i := range x.a {
			n.a[i] = deepCopy(x.a[i], seen)
		}
		return Value{p: n}
	}
	return v
}

func conc64(t *thread, v Value) uint64 {
	if v.p != nil {
		t.unsupported("symbolic floating point operation")
	}
	return v.n
}

func fieldIdx(t types.Type, name string) int {
	st := t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

func concBytes(v []Value) ([]byte, bool) {
	b := make([]byte, len(v))
	for i := range v {
		if v[i].p != nil {
			return nil, false
		}
		b[i] = byte(v[i].n)
	}
	return b, true
}

// bytesCmp gives -1/0/1 as an int.
func (t *thread) bytesCmp(a, b []Value) Value {
	x, o1 := concBytes(a)
	y, o2 := concBytes(b)
	if o1 && o2 {
		return vInt(bytes.Compare(x, y))
	}
	f := t.run.f
	var r *Term
	switch {
	case len(a) < len(b):
		r = f.Const(64, ^uint64(0))
	case len(a) > len(b):
		r = f.Const(64, 1)
	default:
		r = f.Const(64, 0)
	}
	for i := min(len(a), len(b)) - 1; i >= 0; i-- {
		p, q := t.run.term(a[i], 8), t.run.term(b[i], 8)
		r = f.Ite(f.Eq(p, q), r, f.Ite(f.Ult(p, q), f.Const(64, ^uint64(0)), f.Const(64, 1)))
	}
	return t.run.val(r)
}

func (t *thread) indexSub(a, sep []Value) Value {
	for i := 0; i+len(sep) <= len(a); i++ {
		if t.cond(t.bytesEq(a[i:i+len(sep)], sep)) {
			return vInt(i)
		}
	}
	return vInt(-1)
}

// lenTerm gives the number of significant bits of x as a 64-bit int.
func lenTerm(f *Factory, x *Term) *Term {
	r := f.Const(64, 0)
	for i := 0; i < x.w; i++ {
		r = f.Ite(f.Eq(f.Extract(x, i, 1), f.Const(1, 1)), f.Const(64, uint64(i+1)), r)
	}
	return r
}

func tzTerm(f *Factory, x *Term) *Term {
	r := f.Const(64, uint64(x.w))
	for i := x.w - 1; i >= 0; i-- {
		r = f.Ite(f.Eq(f.Extract(x, i, 1), f.Const(1, 1)), f.Const(64, uint64(i)), r)
	}
	return r
}

func init() {
	for _, w := range []int{8, 16, 32, 64} {
		w := w
		regI(func(t *thread, fr *frame, a []Value) Value {
			return t.run.val(lenTerm(t.run.f, t.run.term(a[0], w)))
		}, fmt.Sprintf("math/bits.Len%d", w))
		regI(func(t *thread, fr *frame, a []Value) Value {
			f := t.run.f
			return t.run.val(f.Sub(f.Const(64, uint64(w)), lenTerm(f, t.run.term(a[0], w))))
		}, fmt.Sprintf("math/bits.LeadingZeros%d", w))
		regI(func(t *thread, fr *frame, a []Value) Value {
			return t.run.val(tzTerm(t.run.f, t.run.term(a[0], w)))
		}, fmt.Sprintf("math/bits.TrailingZeros%d", w))
	}
	intrinsics["math/bits.Len"] = intrinsics["math/bits.Len64"]
	intrinsics["math/bits.LeadingZeros"] = intrinsics["math/bits.LeadingZeros64"]
	intrinsics["math/bits.TrailingZeros"] = intrinsics["math/bits.TrailingZeros64"]

	// ---- sync ----
	lock := func(t *thread, fr *frame, a []Value) Value { t.lock(ptrOf(t, a[0])); return Value{} }
	unlock := func(t *thread, fr *frame, a []Value) Value { t.unlock(ptrOf(t, a[0])); return Value{} }
	regI(lock, "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*internal/sync.Mutex).Lock")
	regI(unlock, "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*internal/sync.Mutex).Unlock")
	regI(func(t *thread, fr *frame, a []Value) Value { return vBool(t.tryLock(ptrOf(t, a[0]))) }, "(*sync.Mutex).TryLock", "(*sync.RWMutex).TryLock")
	regI(func(t *thread, fr *frame, a []Value) Value { t.rlock(ptrOf(t, a[0])); return Value{} }, "(*sync.RWMutex).RLock")
	regI(func(t *thread, fr *frame, a []Value) Value { t.runlock(ptrOf(t, a[0])); return Value{} }, "(*sync.RWMutex).RUnlock")
	regI(func(t *thread, fr *frame, a []Value) Value {
		p := ptrOf(t, a[0])
		l := t.run.lockOf(p)
		if l.w || l.waitW > 0 {
			return vBool(false)
		}
		l.readers++
		t.acquire(lockKey{p, false})
		return vBool(true)
	}, "(*sync.RWMutex).TryRLock")
	regI(func(t *thread, fr *frame, a []Value) Value {
		p := ptrOf(t, a[0])
		s := sideOf[onceS](t, p, "once")
		t.point()
		if s.done {
			t.acquire(s)
			return Value{}
		}
		t.lock(p)
		defer func() {
			if !t.run.dead {
				t.unlock(p)
			}
		}()
		if !s.done {
			defer func() { s.done = true; t.release(s) }()
			t.call(fr, a[1], nil, 0)
		}
		return Value{}
	}, "(*sync.Once).Do")
	regI(func(t *thread, fr *frame, a []Value) Value {
		s := sideOf[wgS](t, ptrOf(t, a[0]), "wg")
		t.point()
		t.release(s)
		s.n += int64(t.concInt(a[1]))
		if s.n < 0 {
			t.throw(mkIface(rtOf(types.Typ[types.String]), goStr("sync: negative WaitGroup counter")))
		}
		return Value{}
	}, "(*sync.WaitGroup).Add")
	regI(func(t *thread, fr *frame, a []Value) Value {
		s := sideOf[wgS](t, ptrOf(t, a[0]), "wg")
		t.point()
		t.release(s)
		s.n--
		if s.n < 0 {
			t.throw(mkIface(rtOf(types.Typ[types.String]), goStr("sync: negative WaitGroup counter")))
		}
		return Value{}
	}, "(*sync.WaitGroup).Done")
	regI(func(t *thread, fr *frame, a []Value) Value {
		s := sideOf[wgS](t, ptrOf(t, a[0]), "wg")
		t.point()
		if s.n > 0 {
			t.block("WaitGroup.Wait", func() bool { return s.n == 0 })
		}
		t.acquire(s)
		return Value{}
	}, "(*sync.WaitGroup).Wait")
	regI(func(t *thread, fr *frame, a []Value) Value {
		s := sideOf[wgS](t, ptrOf(t, a[0]), "wg")
		s.n++
		fn := a[1]
		t.startFn("WaitGroup.Go", func(n *thread) {
			n.call(nil, fn, nil, 0)
			n.release(s)
			s.n--
		})
		t.point()
		return Value{}
	}, "(*sync.WaitGroup).Go")

	// sync.Cond
	regI(func(t *thread, fr *frame, a []Value) Value {
		c := ptrOf(t, a[0])
		s := sideOf[condS](t, c, "cond")
		ct := t.run.eng.stdType("sync", "Cond")
		l := c.p.(*agg).e[fieldIdx(ct, "L")]
		i := ifc(l)
		call := func(name string) {
			obj, _, _ := types.LookupFieldOrMethod(i.rt.t, true, nil, name)
			t.invoke(fr, i, obj.(*types.Func), []Value{i.v}, 0)
		}
		sig := new(bool)
		s.q = append(s.q, sig)
		call("Unlock")
		if !*sig {
			t.block("Cond.Wait", func() bool { return *sig })
		}
		call("Lock")
		return Value{}
	}, "(*sync.Cond).Wait")
	regI(func(t *thread, fr *frame, a []Value) Value {
		s := sideOf[condS](t, ptrOf(t, a[0]), "cond")
		t.point()
		if len(s.q) > 0 {
			*s.q[0] = true
			s.q = s.q[1:]
		}
		return Value{}
	}, "(*sync.Cond).Signal")
	regI(func(t *thread, fr *frame, a []Value) Value {
		s := sideOf[condS](t, ptrOf(t, a[0]), "cond")
		t.point()
		for _, b := range s.q {
			*b = true
		}
		s.q = nil
		return Value{}
	}, "(*sync.Cond).Broadcast")

	// sync.Pool: always a miss
	regI(func(t *thread, fr *frame, a []Value) Value {
		p := ptrOf(t, a[0])
		n := p.p.(*agg).e[fieldIdx(t.run.eng.stdType("sync", "Pool"), "New")]
		s := sideOf[poolS](t, p, "pool")
		if k := len(s.items); k > 0 {
			v := s.items[k-1]
			t.acquire(s)
			s.items = s.items[:k-1]
			return v
		}
		if n.p == nil {
			return Value{}
		}
		return t.call(fr, n, nil, 0)
	}, "(*sync.Pool).Get")
	regI(func(t *thread, fr *frame, a []Value) Value {
		s := sideOf[poolS](t, ptrOf(t, a[0]), "pool")
		t.release(s)
		if len(s.items) < 8 {
			s.items = append(s.items, a[1])
		}
		return Value{}
	}, "(*sync.Pool).Put")

	// sync.Map
	smap := func(t *thread, v Value) *mapV {
		s := sideOf[smapS](t, ptrOf(t, v), "smap")
		if s.m == nil {
			s.m = newMap()
		}
		t.point()
		t.acquire(s)
		t.release(s)
		return s.m
	}
	regI(func(t *thread, fr *frame, a []Value) Value {
		e := t.mapFind(smap(t, a[0]), anyTI, a[1])
		if e == nil {
			return tup(Value{}, vBool(false))
		}
		return tup(e.v, vBool(true))
	}, "(*sync.Map).Load")
	regI(func(t *thread, fr *frame, a []Value) Value {
		t.mapSet(smap(t, a[0]), anyTI, a[1], a[2])
		return Value{}
	}, "(*sync.Map).Store")
	regI(func(t *thread, fr *frame, a []Value) Value {
		m := smap(t, a[0])
		if e := t.mapFind(m, anyTI, a[1]); e != nil {
			return tup(e.v, vBool(true))
		}
		t.mapSet(m, anyTI, a[1], a[2])
		return tup(a[2], vBool(false))
	}, "(*sync.Map).LoadOrStore")
	regI(func(t *thread, fr *frame, a []Value) Value {
		m := smap(t, a[0])
		e := t.mapFind(m, anyTI, a[1])
		if e == nil {
			return tup(Value{}, vBool(false))
		}
		v := e.v
		t.mapDelete(m, anyTI, a[1])
		return tup(v, vBool(true))
	}, "(*sync.Map).LoadAndDelete")
	regI(func(t *thread, fr *frame, a []Value) Value {
		t.mapDelete(smap(t, a[0]), anyTI, a[1])
		return Value{}
	}, "(*sync.Map).Delete")
	regI(func(t *thread, fr *frame, a []Value) Value {
		m := smap(t, a[0])
		e := t.mapFind(m, anyTI, a[1])
		if e == nil {
			t.mapSet(m, anyTI, a[1], a[2])
			return tup(Value{}, vBool(false))
		}
		v := e.v
		e.v = a[2]
		return tup(v, vBool(true))
	}, "(*sync.Map).Swap")
	regI(func(t *thread, fr *frame, a []Value) Value {
		m := smap(t, a[0])
		e := t.mapFind(m, anyTI, a[1])
		if e == nil || !t.cond(t.eqVal(anyTI, e.v, a[2])) {
			return vBool(false)
		}
		e.v = a[3]
		return vBool(true)
	}, "(*sync.Map).CompareAndSwap")
	regI(func(t *thread, fr *frame, a []Value) Value {
		m := smap(t, a[0])
		e := t.mapFind(m, anyTI, a[1])
		if e == nil || !t.cond(t.eqVal(anyTI, e.v, a[2])) {
			return vBool(false)
		}
		t.mapDelete(m, anyTI, a[1])
		return vBool(true)
	}, "(*sync.Map).CompareAndDelete")
	regI(func(t *thread, fr *frame, a []Value) Value {
		m := smap(t, a[0])
		for _, e := range append([]*mapEntry{}, m.ents...) {
			if e.dead {
				continue
			}
			if !t.cond(t.call(fr, a[1], []Value{e.k, e.v}, 0)) {
				break
			}
			t.point()
		}
		return Value{}
	}, "(*sync.Map).Range")
	regI(func(t *thread, fr *frame, a []Value) Value {
		m := smap(t, a[0])
		for _, e := range m.ents {
			e.dead = true
		}
		m.ents, m.idx, m.n, m.sym = nil, map[any]*mapEntry{}, 0, 0
		return Value{}
	}, "(*sync.Map).Clear")

	// ---- atomics ----
	for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		w := 64
		if strings.HasSuffix(ty, "32") {
			w = 32
		}
		isPtr := ty == "Pointer"
		pfx := "sync/atomic."
		at := func(t *thread, v Value) *Value {
			t.point()
			p := ptrOf(t, v)
			t.acquire(p)
			t.release(p)
			return p
		}
		regI(func(t *thread, fr *frame, a []Value) Value {
			t.point()
			p := ptrOf(t, a[0])
			t.acquire(p)
			return *p
		}, pfx+"Load"+ty)
		regI(func(t *thread, fr *frame, a []Value) Value {
			t.point()
			p := ptrOf(t, a[0])
			t.release(p)
			*p = a[1]
			return Value{}
		}, pfx+"Store"+ty)
		regI(func(t *thread, fr *frame, a []Value) Value {
			p := at(t, a[0])
			o := *p
			*p = a[1]
			return o
		}, pfx+"Swap"+ty)
		regI(func(t *thread, fr *frame, a []Value) Value {
			p := at(t, a[0])
			var eq Value
			if isPtr {
				eq = vBool(p.p == a[1].p && p.n == a[1].n)
			} else {
				eq = t.run.val(t.run.f.Eq(t.run.term(*p, w), t.run.term(a[1], w)))
			}
			if t.cond(eq) {
				*p = a[2]
				return vBool(true)
			}
			return vBool(false)
		}, pfx+"CompareAndSwap"+ty)
		if isPtr {
			continue
		}
		regI(func(t *thread, fr *frame, a []Value) Value {
			p := at(t, a[0])
			*p = t.run.val(t.run.f.Add(t.run.term(*p, w), t.run.term(a[1], w)))
			return *p
		}, pfx+"Add"+ty)
		regI(func(t *thread, fr *frame, a []Value) Value {
			p := at(t, a[0])
			o := *p
			*p = t.run.val(t.run.f.And(t.run.term(*p, w), t.run.term(a[1], w)))
			return o
		}, pfx+"And"+ty)
		regI(func(t *thread, fr *frame, a []Value) Value {
			p := at(t, a[0])
			o := *p
			*p = t.run.val(t.run.f.Or(t.run.term(*p, w), t.run.term(a[1], w)))
			return o
		}, pfx+"Or"+ty)
	}
	av := func(t *thread, v Value) *Value {
		t.point()
		p := ptrOf(t, v)
		t.acquire(p)
		t.release(p)
		return &p.p.(*agg).e[0]
	}
	regI(func(t *thread, fr *frame, a []Value) Value { return *av(t, a[0]) }, "(*sync/atomic.Value).Load")
	regI(func(t *thread, fr *frame, a []Value) Value {
		p := av(t, a[0])
		if a[1].p == nil {
			t.throw(mkIface(rtOf(types.Typ[types.String]), goStr("sync/atomic: store of nil value into Value")))
		}
		*p = a[1]
		return Value{}
	}, "(*sync/atomic.Value).Store")
	regI(func(t *thread, fr *frame, a []Value) Value {
		p := av(t, a[0])
		o := *p
		*p = a[1]
		return o
	}, "(*sync/atomic.Value).Swap")
	regI(func(t *thread, fr *frame, a []Value) Value {
		p := av(t, a[0])
		if t.cond(t.eqVal(anyTI, *p, a[1])) {
			*p = a[2]
			return vBool(true)
		}
		return vBool(false)
	}, "(*sync/atomic.Value).CompareAndSwap")

	// ---- time ----
	regI(func(t *thread, fr *frame, a []Value) Value {
		n := t.run.now
		return tup(Value{n: uint64(n / 1e9)}, Value{n: uint64(n % 1e9)}, Value{})
	}, "time.runtimeNow", "time.now")
	regI(func(t *thread, fr *frame, a []Value) Value { return Value{n: uint64(t.run.now)} }, "time.runtimeNano")
	regI(func(t *thread, fr *frame, a []Value) Value { return vBool(false) }, "time.runtimeIsBubbled")
	regI(func(t *thread, fr *frame, a []Value) Value {
		d := int64(t.concInt(a[0]))
		done := false
		t.run.addTimer(d, func(*thread) { done = true })
		t.block("sleep", func() bool { return done })
		if fr != nil && strings.Contains(fr.cf.name, "zzverif") {
			t.joinAll() // harnesses order things by sleeping
		}
		return Value{}
	}, "time.Sleep")
	regI(func(t *thread, fr *frame, a []Value) Value {
		tt := t.run.eng.stdType("time", "Timer")
		v := zero(ti(tt))
		p := &v
		v.p.(*agg).e[fieldIdx(tt, "initTimer")] = vBool(true)
		s := sideOf[timerS](t, p, "timer")
		s.f, s.arg, s.period = a[2], a[3], int64(t.concInt(a[1]))
		t.armTimer(s, int64(t.concInt(a[0])))
		return Value{p: p}
	}, "time.newTimer")
	regI(func(t *thread, fr *frame, a []Value) Value {
		s := sideOf[timerS](t, ptrOf(t, a[0]), "timer")
		t.point()
		return vBool(t.run.stopTimer(s.tm))
	}, "time.stopTimer")
	regI(func(t *thread, fr *frame, a []Value) Value {
		s := sideOf[timerS](t, ptrOf(t, a[0]), "timer")
		t.point()
		r := t.run.stopTimer(s.tm)
		s.period = int64(t.concInt(a[2]))
		t.armTimer(s, int64(t.concInt(a[1])))
		return vBool(r)
	}, "time.resetTimer")

	// ---- bytealg ----
	ba := "internal/bytealg."
	ib := func(get func(Value) []Value) natFn {
		return func(t *thread, fr *frame, a []Value) Value {
			for i, b := range get(a[0]) {
				if b.p == nil && a[1].p == nil {
					if b.n == a[1].n {
						return vInt(i)
					}
					continue
				}
				if t.cond(t.run.val(t.run.f.Eq(t.run.term(b, 8), t.run.term(a[1], 8)))) {
					return vInt(i)
				}
			}
			return vInt(-1)
		}
	}
	lib := func(get func(Value) []Value) natFn {
		return func(t *thread, fr *frame, a []Value) Value {
			x := get(a[0])
			for i := len(x) - 1; i >= 0; i-- {
				if t.cond(t.run.val(t.run.f.Eq(t.run.term(x[i], 8), t.run.term(a[1], 8)))) {
					return vInt(i)
				}
			}
			return vInt(-1)
		}
	}
	cnt := func(get func(Value) []Value) natFn {
		return func(t *thread, fr *frame, a []Value) Value {
			f := t.run.f
			r := f.Const(64, 0)
			for _, b := range get(a[0]) {
				r = f.Add(r, f.Ite(f.Eq(t.run.term(b, 8), t.run.term(a[1], 8)), f.Const(64, 1), f.Const(64, 0)))
			}
			return t.run.val(r)
		}
	}
	regI(ib(slc), ba+"IndexByte")
	regI(ib(strBytes), ba+"IndexByteString")
	regI(lib(slc), ba+"LastIndexByte")
	regI(lib(strBytes), ba+"LastIndexByteString")
	regI(cnt(slc), ba+"Count")
	regI(cnt(strBytes), ba+"CountString")
	regI(func(t *thread, fr *frame, a []Value) Value { return t.bytesEq(slc(a[0]), slc(a[1])) }, ba+"Equal", "bytes.Equal")
	regI(func(t *thread, fr *frame, a []Value) Value { return t.bytesCmp(slc(a[0]), slc(a[1])) }, ba+"Compare")
	regI(func(t *thread, fr *frame, a []Value) Value { return t.bytesCmp(strBytes(a[0]), strBytes(a[1])) }, ba+"CompareString")
	regI(func(t *thread, fr *frame, a []Value) Value { return t.indexSub(slc(a[0]), slc(a[1])) }, ba+"Index", "bytes.Index")
	regI(func(t *thread, fr *frame, a []Value) Value { return t.indexSub(strBytes(a[0]), strBytes(a[1])) }, ba+"IndexString", "strings.Index", "internal/stringslite.Index")
	regI(func(t *thread, fr *frame, a []Value) Value {
		n := int(t.concInt(a[0]))
		t.allocCheck(t.run.f.Const(64, uint64(n)), 1)
		return mkSlice(make([]Value, n))
	}, ba+"MakeNoZero")
	regI(func(t *thread, fr *frame, a []Value) Value { return a[0] }, "internal/abi.NoEscape", "internal/abi.Escape")

	// ---- utf8 ----
	dr := func(get func(Value) []Value) natFn {
		return func(t *thread, fr *frame, a []Value) Value {
			b := get(a[0])
			if len(b) == 0 {
				return tup(Value{n: 0xFFFD}, Value{})
			}
			r, n := t.decodeRune(b)
			return tup(r, vInt(n))
		}
	}
	regI(dr(slc), "unicode/utf8.DecodeRune")
	regI(dr(strBytes), "unicode/utf8.DecodeRuneInString")
	regI(func(t *thread, fr *frame, a []Value) Value {
		x := a[1]
		enc := t.encodeRune(x)
		base := slc(a[0])
		out := make([]Value, 0, len(base)+len(enc))
		out = append(append(out, base...), enc...)
		return mkSlice(out)
	}, "unicode/utf8.AppendRune")

	// ---- math ----
	m1 := func(fn func(float64) float64) natFn {
		return func(t *thread, fr *frame, a []Value) Value {
			return Value{n: math.Float64bits(fn(math.Float64frombits(conc64(t, a[0]))))}
		}
	}
	regI(m1(math.Floor), "math.Floor")
	regI(m1(math.Ceil), "math.Ceil")
	regI(m1(math.Trunc), "math.Trunc")
	regI(m1(math.Sqrt), "math.Sqrt", "math.sqrt")
	regI(m1(math.Exp), "math.Exp")
	regI(m1(math.Log), "math.Log")

	// ---- runtime ----
	regI(nop, "runtime.GC", "runtime.KeepAlive", "runtime.SetFinalizer", "runtime/debug.FreeOSMemory", "os.Exit", "runtime/debug.PrintStack")
	regI(func(t *thread, fr *frame, a []Value) Value { t.point(); return Value{} }, "runtime.Gosched")
	regI(func(t *thread, fr *frame, a []Value) Value {
		n := 0
		for _, o := range t.run.threads {
			if !o.dead {
				n++
			}
		}
		return vInt(n)
	}, "runtime.NumGoroutine")
	regI(func(t *thread, fr *frame, a []Value) Value { return vInt(8) }, "runtime.NumCPU", "runtime.GOMAXPROCS")
	regI(func(t *thread, fr *frame, a []Value) Value { return mkSlice(nil) }, "runtime/debug.Stack")

	// ---- hashes ----
	regI(func(t *thread, fr *frame, a []Value) Value {
		return t.call1("hash/crc32", "simpleUpdate", a[0], a[1], a[2])
	}, "hash/crc32.update")
	regI(func(t *thread, fr *frame, a []Value) Value {
		g := t.run.eng.prog.pkgs["hash/crc32"].Var("IEEETable")
		return t.call1("hash/crc32", "simpleUpdate", Value{}, *t.run.global(t, g), a[0])
	}, "hash/crc32.ChecksumIEEE")
	regI(nop, "hash/crc32.ieeeInit")
	regI(func(t *thread, fr *frame, a []Value) Value {
		b := slc(a[0])
		f := t.run.f
		if c, ok := concBytes(b); ok {
			s := md5.Sum(c)
			e := make([]Value, 16)
			for i := range e {
				e[i].n = uint64(s[i])
			}
			return Value{p: &agg{e}}
		}
		var args []*Term
		for _, x := range b {
			args = append(args, t.run.term(x, 8))
		}
		hi := f.UF(fmt.Sprintf("md5hi_%d", len(b)), 64, args...)
		lo := f.UF(fmt.Sprintf("md5lo_%d", len(b)), 64, args...)
		t.regMD5(len(b))
		e := make([]Value, 16)
		for i := 0; i < 8; i++ {
			e[i] = t.run.val(f.Extract(hi, 56-8*i, 8))
			e[8+i] = t.run.val(f.Extract(lo, 56-8*i, 8))
		}
		return Value{p: &agg{e}}
	}, "crypto/md5.Sum")

	// ---- strconv / math/big ----
	regI(parseUint, "strconv.ParseUint")
	regI(bigSetString, "(*math/big.Int).SetString")

	// ---- fmt / log ----
	regI(func(t *thread, fr *frame, a []Value) Value { return t.errorf(a[0], slc(a[1])) }, "fmt.Errorf")
	regI(func(t *thread, fr *frame, a []Value) Value { return t.sprintf(a[0], slc(a[1])) }, "fmt.Sprintf")
	regI(func(t *thread, fr *frame, a []Value) Value { return t.sprint(slc(a[0]), false) }, "fmt.Sprint")
	regI(func(t *thread, fr *frame, a []Value) Value { return t.sprint(slc(a[0]), true) }, "fmt.Sprintln")
	pr := func(t *thread, fr *frame, a []Value) Value { return tup(Value{}, Value{}) }
	regI(pr, "fmt.Printf", "fmt.Println", "fmt.Print")
	fpr := func(mk func(t *thread, a []Value) Value) natFn {
		return func(t *thread, fr *frame, a []Value) Value {
			i := ifc(a[0])
			if i == nil {
				return tup(Value{}, Value{})
			}
			s := mk(t, a)
			b := make([]Value, strLen(s))
			copy(b, strBytes(s))
			wt := t.run.eng.stdType("io", "Writer").Underlying().(*types.Interface)
			return t.invoke(fr, i, wt.Method(0), []Value{i.v, mkSlice(b)}, 0)
		}
	}
	regI(fpr(func(t *thread, a []Value) Value { return t.sprintf(a[1], slc(a[2])) }), "fmt.Fprintf")
	regI(fpr(func(t *thread, a []Value) Value { return t.sprint(slc(a[1]), false) }), "fmt.Fprint")
	regI(fpr(func(t *thread, a []Value) Value { return t.sprint(slc(a[1]), true) }), "fmt.Fprintln")

	regI(func(t *thread, fr *frame, a []Value) Value { return goStr("") }, "(*internal/godebug.Setting).Value")
	regI(nop, "(*internal/godebug.Setting).IncNonDefault", "os.Getenv")
	regI(func(t *thread, fr *frame, a []Value) Value { return Value{n: 4711} }, "os.Getpid", "syscall.Getpid")
	regI(func(t *thread, fr *frame, a []Value) Value {
		v := zero(ti(t.run.eng.stdType("internal/godebug", "Setting")))
		return Value{p: &v}
	}, "internal/godebug.New")
}

type timerS struct {
	tm     *timer
	f, arg Value
	period int64
}

func (t *thread) armTimer(s *timerS, when int64) {
	r := t.run
	s.tm = r.addTimer(when-r.now, func(self *thread) {
		self.startFn("timer", func(n *thread) {
			n.call(nil, s.f, []Value{s.arg, {}, {}}, 0)
		})
		if s.period > 0 {
			self.armTimer(s, r.now+s.period)
		}
	})
}

// startFn starts an engine-level thread.
func (t *thread) startFn(name string, f func(n *thread)) {
	var n *thread
	n = t.start(name, func() { f(n) })
}

func (t *thread) call1(pkg, name string, args ...Value) Value {
	fn := t.run.eng.prog.pkgs[pkg].Func(name)
	return t.callFn(t.top, t.run.eng.cfuncOf(fn), args, nil, 0)
}

var md5Mu sync.Mutex

func (t *thread) regMD5(n int) {
	md5Mu.Lock()
	defer md5Mu.Unlock()
	hi := fmt.Sprintf("md5hi_%d", n)
	if _, ok := ufConcrete[hi]; ok {
		return
	}
	_ = binary.BigEndian
	// md5 stays uninterpreted: a model may choose any value, and a
	// counterexample that depends on it fails to replay.
}

// intrinsicByPkg handles whole packages.
func intrinsicByPkg(path string, fn *ssa.Function) natFn {
	if fn.Synthetic == "package initializer" {
		return nil
	}
	switch path {
	case "log":
		return func(t *thread, fr *frame, a []Value) Value {
			switch fn.Name() {
			case "Fatal", "Fatalf", "Fatalln":
				t.violation("fatal", "log.Fatal terminates the process")
			case "Panic", "Panicf", "Panicln":
				t.throw(mkIface(rtOf(types.Typ[types.String]), goStr("log.Panic")))
			}
			return zeroResult(fn)
		}
	case "internal/race", "internal/msan", "internal/asan":
		if fn.Signature.Results().Len() == 0 {
			return nop
		}
	case "reflect", "internal/reflectlite":
		n, interp := reflectIntrinsic(fn)
		if interp {
			return nil
		}
		if n != nil {
			return n
		}
		return func(t *thread, fr *frame, a []Value) Value {
			t.unsupported("%s", fn.String())
			return Value{}
		}
	case symPath:
		return symIntrinsic(fn)
	}
	return nil
}

// ---- number parsing summaries ----

// hexDigits gives, per character, the nibble and whether it is a hex digit.
func (t *thread) hexDigit(b Value) (*Term, *Term) {
	f := t.run.f
	x := t.run.term(b, 8)
	if x.isC() {
		c := byte(x.k)
		switch {
		case c >= '0' && c <= '9':
			return f.Const(4, uint64(c-'0')), f.True
		case c >= 'a' && c <= 'f':
			return f.Const(4, uint64(c-'a'+10)), f.True
		case c >= 'A' && c <= 'F':
			return f.Const(4, uint64(c-'A'+10)), f.True
		}
		return f.Const(4, 0), f.False
	}
	nib := make([]uint64, 256)
	ok := make([]uint64, 256)
	for c := 0; c < 256; c++ {
		switch {
		case c >= '0' && c <= '9':
			nib[c], ok[c] = uint64(c-'0'), 1
		case c >= 'a' && c <= 'f':
			nib[c], ok[c] = uint64(c-'a'+10), 1
		case c >= 'A' && c <= 'F':
			nib[c], ok[c] = uint64(c-'A'+10), 1
		}
	}
	n := f.Table(nib, x, 4)
	in := func(lo, hi uint64) *Term { return f.BAnd(f.Ule(f.Const(8, lo), x), f.Ule(x, f.Const(8, hi))) }
	// for a known nibble table inverse (formatted digits) this folds
	v := f.BOr(in('0', '9'), in('a', 'f'), in('A', 'F'))
	if x.op == OTable {
		all := true
		for _, c := range x.tab {
			if ok[c&255] == 0 {
				all = false
			}
		}
		if all {
			v = f.True
		}
	}
	return n, v
}

func (t *thread) numError(fn string, s Value, which string) Value {
	e := t.run.eng
	nt := e.stdType("strconv", "NumError")
	if nt == nil {
		return t.mkErr(goStr("invalid number"))
	}
	if _, ok := nt.Underlying().(*types.Struct); !ok {
		return t.mkErr(goStr("invalid number"))
	}
	g := e.prog.pkgs["strconv"].Var(which)
	if g == nil {
		return t.mkErr(goStr("invalid number"))
	}
	v := zero(ti(nt))
	a := v.p.(*agg)
	a.e[fieldIdx(nt, "Func")] = goStr(fn)
	a.e[fieldIdx(nt, "Num")] = s
	a.e[fieldIdx(nt, "Err")] = *t.run.global(t, g)
	return mkIface(rtOf(types.NewPointer(nt)), Value{p: &v})
}

func parseUint(t *thread, fr *frame, a []Value) Value {
	s, base, bits := a[0], int64(t.concInt(a[1])), int(t.concInt(a[2]))
	if bits == 0 {
		bits = 64
	}
	if c, ok := strConc(s); ok {
		v, err := strconv.ParseUint(c, int(base), bits)
		if err == nil {
			return tup(Value{n: v}, Value{})
		}
		w := "ErrSyntax"
		if err.(*strconv.NumError).Err == strconv.ErrRange {
			w = "ErrRange"
		}
		return tup(Value{n: v}, t.numError("ParseUint", s, w))
	}
	f := t.run.f
	b := strBytes(s)
	if base != 16 && base != 10 {
		t.unsupported("ParseUint base %d on symbolic text", base)
	}
	valid := f.True
	var dig []*Term
	for _, x := range b {
		if base == 16 {
			n, ok := t.hexDigit(x)
			dig = append(dig, f.ZExt(n, 64))
			valid = f.BAnd(valid, ok)
		} else {
			c := t.run.term(x, 8)
			ok := f.BAnd(f.Ule(f.Const(8, '0'), c), f.Ule(c, f.Const(8, '9')))
			dig = append(dig, f.ZExt(f.Sub(c, f.Const(8, '0')), 64))
			valid = f.BAnd(valid, ok)
		}
	}
	if !t.run.branch(t, valid) {
		// a range error may take precedence over a later syntax error
		return tup(Value{}, t.numError("ParseUint", s, "ErrSyntax"))
	}
	v := f.Const(64, 0)
	over := f.False
	lim := uint64(math.MaxUint64) / uint64(base)
	for i, d := range dig {
		if base == 16 {
			if i >= 16 {
				over = f.BOr(over, f.BNot(f.Eq(f.Extract(v, 60, 4), f.Const(4, 0))))
			}
			v = f.Concat(f.Extract(v, 0, 60), f.Extract(d, 0, 4))
			continue
		}
		if i >= 19 {
			over = f.BOr(over, f.Ult(f.Const(64, lim), v))
		}
		nv := f.Mul(v, f.Const(64, uint64(base)))
		nv2 := f.Add(nv, d)
		if i >= 19 {
			over = f.BOr(over, f.Ult(nv2, nv))
		}
		v = nv2
	}
	if bits < 64 {
		over = f.BOr(over, f.Ult(f.Const(64, mask(bits)), v))
	}
	if t.run.branch(t, over) {
		return tup(Value{n: mask(bits)}, t.numError("ParseUint", s, "ErrRange"))
	}
	return tup(t.run.val(v), Value{})
}

// bigSetString summarises (*big.Int).SetString for base 16.
func bigSetString(t *thread, fr *frame, a []Value) Value {
	base := int64(t.concInt(a[2]))
	z := ptrOf(t, a[0])
	it := t.run.eng.stdType("math/big", "Int")
	ni, ai := fieldIdx(it, "neg"), fieldIdx(it, "abs")
	set := func(neg bool, words []Value) Value {
		ag := z.p.(*agg)
		ag.e[ni] = vBool(neg)
		ag.e[ai] = mkSlice(words)
		return tup(a[0], vBool(true))
	}
	if c, ok := strConc(a[1]); ok {
		i, ok := new(big.Int).SetString(c, int(base))
		if !ok {
			return tup(Value{}, vBool(false))
		}
		var w []Value
		for _, x := range i.Bits() {
			w = append(w, Value{n: uint64(x)})
		}
		return set(i.Sign() < 0, w)
	}
	if base != 16 {
		t.unsupported("big.Int.SetString base %d on symbolic text", base)
	}
	f := t.run.f
	b := strBytes(a[1])
	if len(b) == 0 {
		return tup(Value{}, vBool(false))
	}
	neg := false
	is := func(c byte) bool {
		return t.run.branch(t, f.Eq(t.run.term(b[0], 8), f.Const(8, uint64(c))))
	}
	if is('-') {
		neg = true
		b = b[1:]
	} else if is('+') {
		b = b[1:]
	}
	if len(b) == 0 {
		return tup(Value{}, vBool(false))
	}
	valid := f.True
	var nibs []*Term
	for _, x := range b {
		n, ok := t.hexDigit(x)
		nibs = append(nibs, n)
		valid = f.BAnd(valid, ok)
	}
	if !t.run.branch(t, valid) {
		return tup(Value{}, vBool(false))
	}
	var words []Value
	for e := len(nibs); e > 0; e -= 16 {
		s := max(0, e-16)
		w := f.Const(64, 0)
		if e-s > 0 {
			w = f.ZExt(f.Concat(nibs[s:e]...), 64)
		}
		words = append(words, t.run.val(w))
	}
	for len(words) > 0 {
		top := words[len(words)-1]
		if !t.cond(t.run.val(f.Eq(t.run.term(top, 64), f.Const(64, 0)))) {
			break
		}
		words = words[:len(words)-1]
	}
	if len(words) == 0 {
		neg = false
	}
	return set(neg, words)
}

// uniqueMake models unique.Make[T]: one cell per distinct value of T on the
// path, so that handles are equal if and only if the values are.
func uniqueMake(typ types.Type) natFn {
	x := ti(typ)
	key := "unique.Make " + typ.String()
	return func(t *thread, fr *frame, a []Value) Value {
		cells, _ := t.run.side[key].([]*Value)
		for _, c := range cells {
			if t.cond(t.eqVal(x, *c, a[0])) {
				return Value{p: &agg{e: []Value{{p: c}}}}
			}
		}
		c := new(Value)
		*c = cp(a[0])
		t.run.side[key] = append(cells, c)
		return Value{p: &agg{e: []Value{{p: c}}}}
	}
}
