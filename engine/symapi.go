package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const symPath = repoModule + "/zzverif/sym"

func symIntrinsic(fn *ssa.Function) natFn {
	name := fn.Name()
	if strings.HasPrefix(name, "init") {
		return func(t *thread, fr *frame, a []Value) Value { return Value{} }
	}
	if f, ok := symFuncs[name]; ok {
		return f
	}
	return func(t *thread, fr *frame, a []Value) Value {
		t.unsupported("sym.%s", name)
		return Value{}
	}
}

func (r *Run) uniqueName(n string) string {
	k := r.names[n]
	r.names[n] = k + 1
	if k == 0 {
		return n
	}
	return fmt.Sprintf("%s#%d", n, k)
}

func (t *thread) freshInt(nameV Value, w int, kind string) *Term {
	r := t.run
	s, _ := strConc(nameV)
	n := r.uniqueName(s)
	vn := n
	if w != 8 {
		// the factory is shared between paths, which may use one name with
		// different widths
		vn = fmt.Sprintf("%s:%d", n, w)
	}
	v := r.f.Var(vn, w)
	r.inputs = append(r.inputs, inputRec{name: n, kind: kind, ts: []*Term{v}})
	return v
}

func (t *thread) freshBytes(nameV Value, n int, kind string) []Value {
	r := t.run
	s, _ := strConc(nameV)
	nm := r.uniqueName(s)
	rec := inputRec{name: nm, kind: kind, n: n}
	out := make([]Value, n)
	for i := range out {
		v := r.f.Var(fmt.Sprintf("%s[%d]", nm, i), 8)
		rec.ts = append(rec.ts, v)
		out[i] = Value{p: v}
	}
	r.inputs = append(r.inputs, rec)
	return out
}

var symFuncs map[string]natFn

func init() {
	symFuncs = map[string]natFn{}
	ints := func(name string, w int, kind string) {
		symFuncs[name] = func(t *thread, fr *frame, a []Value) Value {
			return Value{p: t.freshInt(a[0], w, kind)}
		}
	}
	ints("U8", 8, "u8")
	ints("U16", 16, "u16")
	ints("U32", 32, "u32")
	ints("U64", 64, "u64")
	ints("I8", 8, "i8")
	ints("I16", 16, "i16")
	ints("I32", 32, "i32")
	ints("I64", 64, "i64")
	ints("F64", 64, "u64")
	ints("F32", 32, "u32")
	ints("Bool", 0, "bool")
	symFuncs["Int"] = func(t *thread, fr *frame, a []Value) Value {
		v := t.freshInt(a[0], 64, "i64")
		f := t.run.f
		t.run.assume(t, f.BAnd(f.Sle(t.run.term(a[1], 64), v), f.Sle(v, t.run.term(a[2], 64))))
		return Value{p: v}
	}
	symFuncs["Bytes"] = func(t *thread, fr *frame, a []Value) Value {
		return mkSlice(t.freshBytes(a[0], int(t.concInt(a[1])), "bytes"))
	}
	symFuncs["Str"] = func(t *thread, fr *frame, a []Value) Value {
		b := t.freshBytes(a[0], int(t.concInt(a[1])), "str")
		if len(b) == 0 {
			return goStr("")
		}
		return Value{p: &symStr{b}}
	}
	symFuncs["Choose"] = func(t *thread, fr *frame, a []Value) Value {
		s, _ := strConc(a[0])
		nm := t.run.uniqueName(s)
		n := int(t.concInt(a[1]))
		k := t.run.choose(t, nm, n)
		t.run.inputs = append(t.run.inputs, inputRec{name: nm, kind: "choice", n: k})
		return vInt(k)
	}
	symFuncs["Concrete"] = func(t *thread, fr *frame, a []Value) Value {
		return Value{n: t.concInt(a[0])}
	}
	symFuncs["Assume"] = func(t *thread, fr *frame, a []Value) Value {
		t.run.assume(t, t.run.term(a[0], 0))
		return Value{}
	}
	symFuncs["Assert"] = func(t *thread, fr *frame, a []Value) Value {
		m, _ := strConc(a[1])
		t.run.assert(t, t.run.term(a[0], 0), m)
		return Value{}
	}
	symFuncs["Fail"] = func(t *thread, fr *frame, a []Value) Value {
		m, ok := strConc(a[0])
		if !ok {
			m = "failure"
		}
		t.run.nassert++
		t.violation("assert", m)
		return Value{}
	}
	symFuncs["Reach"] = func(t *thread, fr *frame, a []Value) Value {
		m, _ := strConc(a[0])
		t.run.reached[m] = true
		return Value{}
	}
	symFuncs["Note"] = func(t *thread, fr *frame, a []Value) Value {
		m, _ := strConc(a[0])
		t.run.notes = append(t.run.notes, m)
		return Value{}
	}
	symFuncs["DeepEq"] = func(t *thread, fr *frame, a []Value) Value {
		p, q := ifc(a[0]), ifc(a[1])
		if p == nil || q == nil {
			return vBool(p == q)
		}
		if p.rt != q.rt {
			return vBool(false)
		}
		return t.run.val(t.deepEq(p.rt.t, p.v, q.v, false, 0))
	}
	symFuncs["BytesEq"] = func(t *thread, fr *frame, a []Value) Value { return t.bytesEq(slc(a[0]), slc(a[1])) }
	bools := func(t *thread, v Value) []*Term {
		var out []*Term
		for _, x := range slc(v) {
			out = append(out, t.run.term(x, 0))
		}
		return out
	}
	symFuncs["And"] = func(t *thread, fr *frame, a []Value) Value { return t.run.val(t.run.f.BAnd(bools(t, a[0])...)) }
	symFuncs["Or"] = func(t *thread, fr *frame, a []Value) Value { return t.run.val(t.run.f.BOr(bools(t, a[0])...)) }
	symFuncs["Implies"] = func(t *thread, fr *frame, a []Value) Value {
		f := t.run.f
		return t.run.val(f.BOr(f.BNot(t.run.term(a[0], 0)), t.run.term(a[1], 0)))
	}
	symFuncs["Iff"] = func(t *thread, fr *frame, a []Value) Value {
		return t.run.val(t.run.f.Eq(t.run.term(a[0], 0), t.run.term(a[1], 0)))
	}
	symFuncs["IteU64"] = func(t *thread, fr *frame, a []Value) Value {
		return t.run.val(t.run.f.Ite(t.run.term(a[0], 0), t.run.term(a[1], 64), t.run.term(a[2], 64)))
	}
	symFuncs["IteU8"] = func(t *thread, fr *frame, a []Value) Value {
		return t.run.val(t.run.f.Ite(t.run.term(a[0], 0), t.run.term(a[1], 8), t.run.term(a[2], 8)))
	}
	symFuncs["Done"] = func(t *thread, fr *frame, a []Value) Value { return Value{} }
	symFuncs["AllocLimit"] = func(t *thread, fr *frame, a []Value) Value {
		t.run.allocLimit = int64(t.concInt(a[0]))
		return Value{}
	}
	symFuncs["StepLimit"] = func(t *thread, fr *frame, a []Value) Value {
		t.run.maxSteps = t.run.steps + int64(t.concInt(a[0]))
		t.run.stepViolation = true
		t.run.stackViolation = true
		return Value{}
	}
	symFuncs["Preempt"] = func(t *thread, fr *frame, a []Value) Value {
		t.run.preempt = int(t.concInt(a[0]))
		return Value{}
	}
	symFuncs["AllOrders"] = func(t *thread, fr *frame, a []Value) Value {
		t.run.allOrders = a[0].n != 0
		return Value{}
	}
	symFuncs["MapOrder"] = func(t *thread, fr *frame, a []Value) Value {
		t.run.mapOrder = a[0].n != 0
		return Value{}
	}
	symFuncs["TimerRace"] = func(t *thread, fr *frame, a []Value) Value {
		t.run.timerRace = int(t.concInt(a[0]))
		return Value{}
	}
	symFuncs["Yield"] = func(t *thread, fr *frame, a []Value) Value {
		t.point()
		return Value{}
	}
	symFuncs["Quiesce"] = func(t *thread, fr *frame, a []Value) Value {
		// runs again once every other thread is blocked or finished
		t.quiet = true
		t.what = "quiescence"
		n := t.run.pick(t, true)
		if n != t {
			t.switchTo(n)
		}
		t.quiet = false
		t.what = ""
		t.joinAll()
		return Value{}
	}
	symFuncs["Now"] = func(t *thread, fr *frame, a []Value) Value { return Value{n: uint64(t.run.now)} }
	symFuncs["SetNow"] = func(t *thread, fr *frame, a []Value) Value {
		t.run.now = int64(t.concInt(a[0]))
		return Value{}
	}
	symFuncs["Blocked"] = func(t *thread, fr *frame, a []Value) Value {
		// number of live threads other than the caller
		n := 0
		for _, o := range t.run.threads {
			if o != t && !o.dead {
				n++
			}
		}
		return vInt(n)
	}
	symFuncs["Left"] = func(t *thread, fr *frame, a []Value) Value {
		n := 0
		for _, o := range t.run.threads {
			if o != t && !o.dead {
				n++
			}
		}
		return vInt(n)
	}
	symFuncs["Size"] = func(t *thread, fr *frame, a []Value) Value {
		z := &sizer{r: t.run, cells: map[*Value]bool{}, objs: map[any]bool{}}
		z.val(a[0])
		return vInt(z.n)
	}
	symFuncs["Symbolic"] = func(t *thread, fr *frame, a []Value) Value { return vBool(true) }
	symFuncs["Tier"] = func(t *thread, fr *frame, a []Value) Value {
		if t.run.eng.tier == "thorough" {
			return a[1]
		}
		return a[0]
	}
	symFuncs["End"] = func(t *thread, fr *frame, a []Value) Value {
		panic(&pathStop{"end", ""})
	}
	_ = types.Typ
}
