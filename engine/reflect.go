package main

import (
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// rval is the interpreter's reflect.Value.
type rval struct {
	rt *rtype
	v  Value  // when not addressable
	p  *Value // the cell, when addressable
	ro bool   // obtained through an unexported field
}

func (r *rval) get() Value {
	if r.p != nil {
		return *r.p
	}
	return r.v
}

// rtypeRT marks interface values that hold a reflect.Type; v.p is *rtype.
var rtypeRT = &rtype{t: types.NewPointer(types.NewStruct(nil, nil)), id: -1, ms: map[string]*ssa.Function{}}

func rtypeIface(r *rtype) Value {
	if r == nil {
		return Value{}
	}
	return Value{p: &ifaceV{rtypeRT, Value{p: r}}}
}

func rvV(rt *rtype, v Value) Value { return Value{p: &rval{rt: rt, v: v}} }

func rkind(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return reflect.Bool
		case types.Int:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64:
			return reflect.Float64
		case types.Complex64:
			return reflect.Complex64
		case types.Complex128:
			return reflect.Complex128
		case types.String:
			return reflect.String
		case types.UnsafePointer:
			return reflect.UnsafePointer
		}
	case *types.Pointer:
		return reflect.Ptr
	case *types.Slice:
		return reflect.Slice
	case *types.Array:
		return reflect.Array
	case *types.Map:
		return reflect.Map
	case *types.Chan:
		return reflect.Chan
	case *types.Signature:
		return reflect.Func
	case *types.Interface:
		return reflect.Interface
	case *types.Struct:
		return reflect.Struct
	}
	return reflect.Invalid
}

func (t *thread) rpanic(msg string) {
	t.throw(mkIface(rtOf(types.Typ[types.String]), goStr("reflect: "+msg)))
}

func (t *thread) rv(v Value) *rval {
	r, ok := v.p.(*rval)
	if !ok {
		t.rpanic("call of method on zero Value")
	}
	return r
}

func (t *thread) rtArg(v Value) *rtype {
	i := ifc(v)
	if i == nil {
		t.nilDeref()
	}
	r, ok := i.v.p.(*rtype)
	if !ok {
		t.unsupported("foreign reflect.Type")
	}
	return r
}

func elemType(t *thread, ty types.Type) types.Type {
	switch u := ty.Underlying().(type) {
	case *types.Pointer:
		return u.Elem()
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Map:
		return u.Elem()
	case *types.Chan:
		return u.Elem()
	}
	t.rpanic("Elem of invalid type " + ty.String())
	return nil
}

func structOf(t *thread, ty types.Type) *types.Struct {
	s, ok := ty.Underlying().(*types.Struct)
	if !ok {
		t.rpanic("NumField/Field of non-struct type " + ty.String())
	}
	return s
}

func (t *thread) structField(st *types.Struct, i int) Value {
	sft := t.run.eng.stdType("reflect", "StructField")
	v := zero(ti(sft))
	a := v.p.(*agg)
	set := func(n string, x Value) {
		if k := fieldIdx(sft, n); k >= 0 {
			a.e[k] = x
		}
	}
	f := st.Field(i)
	set("Name", goStr(f.Name()))
	if !f.Exported() && f.Pkg() != nil {
		set("PkgPath", goStr(f.Pkg().Path()))
	}
	set("Type", rtypeIface(rtOf(f.Type())))
	set("Tag", goStr(st.Tag(i)))
	set("Index", mkSlice([]Value{vInt(i)}))
	set("Anonymous", vBool(f.Embedded()))
	var fs []*types.Var
	for j := 0; j <= i; j++ {
		fs = append(fs, st.Field(j))
	}
	set("Offset", Value{n: uint64(stdSizes.Offsetsof(fs)[i])})
	return v
}

var rtypeMethods map[string]func(t *thread, a []Value) Value

func init() {
	self := func(a []Value) *rtype { return a[0].p.(*rtype) }
	rtypeMethods = map[string]func(t *thread, a []Value) Value{
		"Kind":   func(t *thread, a []Value) Value { return vInt(int(rkind(self(a).t))) },
		"String": func(t *thread, a []Value) Value { return goStr(self(a).String()) },
		"Name": func(t *thread, a []Value) Value {
			switch n := self(a).t.(type) {
			case *types.Named:
				return goStr(n.Obj().Name())
			case *types.Basic:
				return goStr(n.Name())
			}
			return goStr("")
		},
		"PkgPath": func(t *thread, a []Value) Value {
			if n, ok := self(a).t.(*types.Named); ok && n.Obj().Pkg() != nil {
				return goStr(n.Obj().Pkg().Path())
			}
			return goStr("")
		},
		"Elem": func(t *thread, a []Value) Value { return rtypeIface(rtOf(elemType(t, self(a).t))) },
		"Key": func(t *thread, a []Value) Value {
			m, ok := self(a).t.Underlying().(*types.Map)
			if !ok {
				t.rpanic("Key of non-map type")
			}
			return rtypeIface(rtOf(m.Key()))
		},
		"Len": func(t *thread, a []Value) Value {
			return vInt(int(self(a).t.Underlying().(*types.Array).Len()))
		},
		"NumField": func(t *thread, a []Value) Value { return vInt(structOf(t, self(a).t).NumFields()) },
		"Field": func(t *thread, a []Value) Value {
			st := structOf(t, self(a).t)
			i := int(int64(t.concInt(a[1])))
			if i < 0 || i >= st.NumFields() {
				t.rpanic("Field index out of bounds")
			}
			return t.structField(st, i)
		},
		"FieldByName": func(t *thread, a []Value) Value {
			st := structOf(t, self(a).t)
			n, _ := strConc(a[1])
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == n {
					return tup(t.structField(st, i), vBool(true))
				}
			}
			return tup(zero(ti(t.run.eng.stdType("reflect", "StructField"))), vBool(false))
		},
		"NumMethod": func(t *thread, a []Value) Value {
			if it, ok := self(a).t.Underlying().(*types.Interface); ok {
				return vInt(it.NumMethods())
			}
			n := 0
			ms := t.run.eng.msets.MethodSet(self(a).t)
			for i := 0; i < ms.Len(); i++ {
				if ms.At(i).Obj().Exported() {
					n++
				}
			}
			return vInt(n)
		},
		"Size":  func(t *thread, a []Value) Value { return vInt(int(sizeof(self(a).t))) },
		"Align": func(t *thread, a []Value) Value { return vInt(int(stdSizes.Alignof(self(a).t))) },
		"Bits":  func(t *thread, a []Value) Value { return vInt(int(sizeof(self(a).t)) * 8) },
		"Implements": func(t *thread, a []Value) Value {
			it, ok := t.rtArg(a[1]).t.Underlying().(*types.Interface)
			if !ok {
				t.rpanic("non-interface type passed to Type.Implements")
			}
			return vBool(types.Implements(self(a).t, it))
		},
		"AssignableTo": func(t *thread, a []Value) Value {
			return vBool(types.AssignableTo(self(a).t, t.rtArg(a[1]).t))
		},
		"ConvertibleTo": func(t *thread, a []Value) Value {
			return vBool(types.ConvertibleTo(self(a).t, t.rtArg(a[1]).t))
		},
		"Comparable": func(t *thread, a []Value) Value { return vBool(types.Comparable(self(a).t)) },
		"common":     func(t *thread, a []Value) Value { return Value{} },
		"uncommon":   func(t *thread, a []Value) Value { return Value{} },
	}
}

func kindOf(r *rval) reflect.Kind { return rkind(r.rt.t) }

func isIntK(k reflect.Kind) bool  { return k >= reflect.Int && k <= reflect.Int64 }
func isUintK(k reflect.Kind) bool { return k >= reflect.Uint && k <= reflect.Uintptr }

func (t *thread) extTo64(v Value, x *tinfo) Value {
	if v.p == nil {
		if x.signed {
			return Value{n: uint64(sext(v.n, x.w))}
		}
		return v
	}
	if x.signed {
		return t.run.val(t.run.f.SExt(v.p.(*Term), 64))
	}
	return t.run.val(t.run.f.ZExt(v.p.(*Term), 64))
}

func (t *thread) truncTo(v Value, w int) Value {
	if v.p == nil {
		return Value{n: v.n & mask(w)}
	}
	return t.run.val(t.run.f.Extract(v.p.(*Term), 0, w))
}

func (t *thread) settable(r *rval, op string) {
	if r.p == nil {
		t.rpanic("reflect.Value." + op + " using unaddressable value")
	}
	if r.ro {
		t.rpanic("reflect.Value." + op + " using value obtained using unexported field")
	}
}

// assignTo converts v for storage in a location of type dst.
func (t *thread) assignTo(r *rval, dst types.Type) Value {
	v := r.get()
	if _, ok := dst.Underlying().(*types.Interface); ok {
		if _, isI := r.rt.t.Underlying().(*types.Interface); isI {
			return v
		}
		return mkIface(r.rt, cp(v))
	}
	if rtOf(dst) != r.rt && !types.AssignableTo(r.rt.t, dst) {
		t.rpanic("value of type " + r.rt.String() + " is not assignable to type " + dst.String())
	}
	return cp(v)
}

func toIfaceV(t *thread, r *rval) Value {
	if _, isI := r.rt.t.Underlying().(*types.Interface); isI {
		return r.get()
	}
	return mkIface(r.rt, cp(r.get()))
}

// isZeroT gives a (possibly symbolic) zero test.
func (t *thread) isZeroT(ty types.Type, v Value) *Term {
	f := t.run.f
	x := ti(ty)
	switch x.k {
	case kBool:
		return f.BNot(t.run.term(v, 0))
	case kInt:
		return f.Eq(t.run.term(v, x.w), f.Const(x.w, 0))
	case kFloat:
		return fpEq(f, t.run.term(v, x.w), f.Const(x.w, 0))
	case kString:
		return f.Bool(strLen(v) == 0)
	case kStruct:
		st := ty.Underlying().(*types.Struct)
		r := f.True
		for i := 0; i < st.NumFields(); i++ {
			r = f.BAnd(r, t.isZeroT(st.Field(i).Type(), v.p.(*agg).e[i]))
		}
		return r
	case kArray:
		et := ty.Underlying().(*types.Array).Elem()
		r := f.True
		for _, e := range v.p.(*agg).e {
			r = f.BAnd(r, t.isZeroT(et, e))
		}
		return r
	}
	return f.Bool(v.p == nil && v.n == 0)
}

func reflectIntrinsic(fn *ssa.Function) (natFn, bool) {
	name := fn.Name()
	recv := fn.Signature.Recv()
	if recv == nil {
		return reflectFuncs[name], false
	}
	rt := recv.Type()
	if p, ok := rt.(*types.Pointer); ok {
		rt = p.Elem()
	}
	n, ok := rt.(*types.Named)
	if !ok {
		return nil, false
	}
	switch n.Obj().Name() {
	case "Value":
		return reflectMethods[name], false
	case "MapIter":
		return mapIterMethods[name], false
	case "StructTag":
		return nil, true
	case "StructField":
		return nil, name == "IsExported"
	case "Kind":
		if name == "String" {
			return func(t *thread, fr *frame, a []Value) Value {
				return goStr(reflect.Kind(a[0].n).String())
			}, false
		}
	}
	return nil, false
}

type mapIterS struct {
	m   *rval
	it  []*mapEntry
	cur *mapEntry
}

func mapOf(v Value) *mapV {
	if v.p == nil {
		return nil
	}
	return v.p.(*mapV)
}

var mapIterMethods = map[string]natFn{
	"Next": func(t *thread, fr *frame, a []Value) Value {
		s := ptrOf(t, a[0]).p.(*mapIterS)
		for len(s.it) > 0 {
			i := 0
			if t.run.mapOrder && len(s.it) > 1 && len(s.it) <= 4 {
				i = t.run.choose(t, "maporder", len(s.it))
			}
			e := s.it[i]
			s.it = append(append([]*mapEntry{}, s.it[:i]...), s.it[i+1:]...)
			if e.dead {
				continue
			}
			s.cur = e
			return vBool(true)
		}
		s.cur = nil
		return vBool(false)
	},
	"Key": func(t *thread, fr *frame, a []Value) Value {
		s := ptrOf(t, a[0]).p.(*mapIterS)
		return rvV(rtOf(s.m.rt.t.Underlying().(*types.Map).Key()), s.cur.k)
	},
	"Value": func(t *thread, fr *frame, a []Value) Value {
		s := ptrOf(t, a[0]).p.(*mapIterS)
		return rvV(rtOf(s.m.rt.t.Underlying().(*types.Map).Elem()), cp(s.cur.v))
	},
}

var reflectFuncs, reflectMethods map[string]natFn

func init() {
	bigLimit := func(t *thread, v Value, esz int64) int {
		x := t.run.term(v, 64)
		f := t.run.f
		if t.run.branch(t, f.Slt(x, f.Const(64, 0))) {
			t.rpanic("reflect.MakeSlice: negative len")
		}
		lim := uint64(1<<47) / uint64(max(esz, 1))
		if !t.run.branch(t, f.Ule(x, f.Const(64, lim))) {
			t.rtPanic("makeslice: len out of range")
		}
		t.allocCheck(x, esz)
		n := int(t.run.concretise(t, x))
		if n > engineMaxElems {
			t.unsupported("allocation of %d elements", n)
		}
		return n
	}
	reflectFuncs = map[string]natFn{
		"TypeOf": func(t *thread, fr *frame, a []Value) Value {
			i := ifc(a[0])
			if i == nil {
				return Value{}
			}
			return rtypeIface(i.rt)
		},
		"ValueOf": func(t *thread, fr *frame, a []Value) Value {
			i := ifc(a[0])
			if i == nil {
				return Value{}
			}
			return rvV(i.rt, i.v)
		},
		"Indirect": func(t *thread, fr *frame, a []Value) Value {
			r, ok := a[0].p.(*rval)
			if !ok || kindOf(r) != reflect.Ptr {
				return a[0]
			}
			return reflectMethods["Elem"](t, fr, a)
		},
		"New": func(t *thread, fr *frame, a []Value) Value {
			rt := t.rtArg(a[0])
			v := zero(ti(rt.t))
			return rvV(rtOf(types.NewPointer(rt.t)), Value{p: &v})
		},
		"Zero": func(t *thread, fr *frame, a []Value) Value {
			rt := t.rtArg(a[0])
			return rvV(rt, zero(ti(rt.t)))
		},
		"MakeSlice": func(t *thread, fr *frame, a []Value) Value {
			rt := t.rtArg(a[0])
			et := elemType(t, rt.t)
			n := bigLimit(t, a[1], sizeof(et))
			c := n
			if !(a[1].p == a[2].p && a[1].n == a[2].n) {
				c = bigLimit(t, a[2], sizeof(et))
			}
			if c < n {
				t.rpanic("reflect.MakeSlice: len > cap")
			}
			el := make([]Value, c)
			if x := ti(et); !x.isRef() {
				for i := range el {
					el[i] = zero(x)
				}
			}
			return rvV(rt, mkSlice(el[:n]))
		},
		"MakeMap": func(t *thread, fr *frame, a []Value) Value { return rvV(t.rtArg(a[0]), Value{p: newMap()}) },
		"MakeMapWithSize": func(t *thread, fr *frame, a []Value) Value {
			esz := int64(16)
			if m, ok := t.rtArg(a[0]).t.Underlying().(*types.Map); ok {
				esz = sizeof(m.Key()) + sizeof(m.Elem())
			}
			x := t.run.term(a[1], 64)
			f := t.run.f
			if !t.run.branch(t, f.Slt(x, f.Const(64, 0))) {
				t.allocCheck(x, esz)
			}
			return rvV(t.rtArg(a[0]), Value{p: newMap()})
		},
		"SliceOf": func(t *thread, fr *frame, a []Value) Value { return rtypeIface(rtOf(types.NewSlice(t.rtArg(a[0]).t))) },
		"PtrTo": func(t *thread, fr *frame, a []Value) Value {
			return rtypeIface(rtOf(types.NewPointer(t.rtArg(a[0]).t)))
		},
		"PointerTo": func(t *thread, fr *frame, a []Value) Value {
			return rtypeIface(rtOf(types.NewPointer(t.rtArg(a[0]).t)))
		},
		"MapOf": func(t *thread, fr *frame, a []Value) Value {
			return rtypeIface(rtOf(types.NewMap(t.rtArg(a[0]).t, t.rtArg(a[1]).t)))
		},
		"ArrayOf": func(t *thread, fr *frame, a []Value) Value {
			return rtypeIface(rtOf(types.NewArray(t.rtArg(a[1]).t, int64(t.concInt(a[0])))))
		},
		"StructOf": func(t *thread, fr *frame, a []Value) Value {
			sft := t.run.eng.stdType("reflect", "StructField")
			var fs []*types.Var
			var tags []string
			for _, e := range slc(a[0]) {
				ag := e.p.(*agg)
				n, _ := strConc(ag.e[fieldIdx(sft, "Name")])
				tag, _ := strConc(ag.e[fieldIdx(sft, "Tag")])
				rt := t.rtArg(ag.e[fieldIdx(sft, "Type")])
				fs = append(fs, types.NewField(0, nil, n, rt.t, ag.e[fieldIdx(sft, "Anonymous")].n != 0))
				tags = append(tags, tag)
			}
			return rtypeIface(rtOf(types.NewStruct(fs, tags)))
		},
		"Append": func(t *thread, fr *frame, a []Value) Value {
			r := t.rv(a[0])
			et := elemType(t, r.rt.t)
			base := slc(r.get())
			out := make([]Value, len(base), len(base)+len(slc(a[1])))
			for i := range base {
				out[i] = base[i]
			}
			for _, x := range slc(a[1]) {
				out = append(out, t.assignTo(t.rv(x), et))
			}
			return rvV(r.rt, mkSlice(out))
		},
		"AppendSlice": func(t *thread, fr *frame, a []Value) Value {
			r, s := t.rv(a[0]), t.rv(a[1])
			out := append([]Value{}, slc(r.get())...)
			for _, x := range slc(s.get()) {
				out = append(out, cp(x))
			}
			return rvV(r.rt, mkSlice(out))
		},
		"Copy": func(t *thread, fr *frame, a []Value) Value {
			d, s := t.rv(a[0]), t.rv(a[1])
			ds := slc(d.get())
			var ss []Value
			if kindOf(s) == reflect.String {
				ss = strBytes(s.get())
			} else {
				ss = slc(s.get())
			}
			n := min(len(ds), len(ss))
			copyVals(ds[:n], ss[:n], ti(elemType(t, d.rt.t)))
			return vInt(n)
		},
		"DeepEqual": func(t *thread, fr *frame, a []Value) Value {
			p, q := ifc(a[0]), ifc(a[1])
			if p == nil || q == nil {
				return vBool(p == q)
			}
			if p.rt != q.rt {
				return vBool(false)
			}
			return t.run.val(t.deepEq(p.rt.t, p.v, q.v, true, 0))
		},
		"Swapper": func(t *thread, fr *frame, a []Value) Value {
			s := slc(ifc(a[0]).v)
			return Value{p: &closure{name: "swapper", nat: func(t *thread, a []Value) Value {
				i, j := int(a[0].n), int(a[1].n)
				x, y := cp(s[i]), cp(s[j])
				storeTo(&s[i], y)
				storeTo(&s[j], x)
				return Value{}
			}}}
		},
	}
	reflectMethods = map[string]natFn{
		"IsValid": func(t *thread, fr *frame, a []Value) Value { return vBool(a[0].p != nil) },
		"Kind": func(t *thread, fr *frame, a []Value) Value {
			r, ok := a[0].p.(*rval)
			if !ok {
				return Value{}
			}
			return vInt(int(kindOf(r)))
		},
		"Type": func(t *thread, fr *frame, a []Value) Value { return rtypeIface(t.rv(a[0]).rt) },
		"Elem": func(t *thread, fr *frame, a []Value) Value {
			r := t.rv(a[0])
			switch u := r.rt.t.Underlying().(type) {
			case *types.Pointer:
				v := r.get()
				if v.p == nil {
					return Value{}
				}
				p, ok := v.p.(*Value)
				if !ok {
					t.unsupported("reflect Elem of %T", v.p)
				}
				return Value{p: &rval{rt: rtOf(u.Elem()), p: p, ro: r.ro}}
			case *types.Interface:
				i := ifc(r.get())
				if i == nil {
					return Value{}
				}
				return Value{p: &rval{rt: i.rt, v: i.v, ro: r.ro}}
			}
			t.rpanic("call of reflect.Value.Elem on " + kindOf(r).String() + " Value")
			return Value{}
		},
		"NumField": func(t *thread, fr *frame, a []Value) Value { return vInt(structOf(t, t.rv(a[0]).rt.t).NumFields()) },
		"Field": func(t *thread, fr *frame, a []Value) Value {
			r := t.rv(a[0])
			st := structOf(t, r.rt.t)
			i := int(int64(t.concInt(a[1])))
			if i < 0 || i >= st.NumFields() {
				t.rpanic("Field index out of range")
			}
			f := st.Field(i)
			n := &rval{rt: rtOf(f.Type()), ro: r.ro || !f.Exported()}
			ag := r.get().p.(*agg)
			if r.p != nil {
				n.p = &ag.e[i]
			} else {
				n.v = ag.e[i]
			}
			return Value{p: n}
		},
		"FieldByName": func(t *thread, fr *frame, a []Value) Value {
			r := t.rv(a[0])
			st := structOf(t, r.rt.t)
			nm, _ := strConc(a[1])
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == nm {
					return reflectMethods["Field"](t, fr, []Value{a[0], vInt(i)})
				}
			}
			return Value{}
		},
		"Index": func(t *thread, fr *frame, a []Value) Value {
			r := t.rv(a[0])
			i := int(int64(t.concInt(a[1])))
			v := r.get()
			switch u := r.rt.t.Underlying().(type) {
			case *types.Slice:
				s := slc(v)
				if i < 0 || i >= len(s) {
					t.rpanic("slice index out of range")
				}
				return Value{p: &rval{rt: rtOf(u.Elem()), p: &s[i], ro: r.ro}}
			case *types.Array:
				s := v.p.(*agg).e
				if i < 0 || i >= len(s) {
					t.rpanic("array index out of range")
				}
				n := &rval{rt: rtOf(u.Elem()), ro: r.ro}
				if r.p != nil {
					n.p = &s[i]
				} else {
					n.v = s[i]
				}
				return Value{p: n}
			case *types.Basic:
				b := strBytes(v)
				if i < 0 || i >= len(b) {
					t.rpanic("string index out of range")
				}
				return rvV(rtOf(types.Typ[types.Uint8]), b[i])
			}
			t.rpanic("call of reflect.Value.Index on " + kindOf(r).String() + " Value")
			return Value{}
		},
		"Len": func(t *thread, fr *frame, a []Value) Value {
			r := t.rv(a[0])
			v := r.get()
			switch kindOf(r) {
			case reflect.Slice:
				return vInt(len(slc(v)))
			case reflect.String:
				return vInt(strLen(v))
			case reflect.Array:
				return vInt(len(v.p.(*agg).e))
			case reflect.Map:
				if m := mapOf(v); m != nil {
					return vInt(m.n)
				}
				return Value{}
			case reflect.Chan:
				if v.p == nil {
					return Value{}
				}
				return vInt(len(v.p.(*chanV).buf))
			}
			t.rpanic("call of reflect.Value.Len on " + kindOf(r).String() + " Value")
			return Value{}
		},
		"Cap": func(t *thread, fr *frame, a []Value) Value {
			return vInt(cap(slc(t.rv(a[0]).get())))
		},
		"Int": func(t *thread, fr *frame, a []Value) Value {
			r := t.rv(a[0])
			if !isIntK(kindOf(r)) {
				t.rpanic("call of reflect.Value.Int on " + kindOf(r).String() + " Value")
			}
			return t.extTo64(r.get(), ti(r.rt.t))
		},
		"Uint": func(t *thread, fr *frame, a []Value) Value {
			r := t.rv(a[0])
			if !isUintK(kindOf(r)) {
				t.rpanic("call of reflect.Value.Uint on " + kindOf(r).String() + " Value")
			}
			return t.extTo64(r.get(), ti(r.rt.t))
		},
		"Float": func(t *thread, fr *frame, a []Value) Value {
			r := t.rv(a[0])
			x := ti(r.rt.t)
			if x.k != kFloat {
				t.rpanic("call of reflect.Value.Float on " + kindOf(r).String() + " Value")
			}
			v := r.get()
			if x.w == 64 {
				return v
			}
			return t.run.val(t.run.f.F32to64(t.run.term(v, 32)))
		},
		"Bool": func(t *thread, fr *frame, a []Value) Value {
			r := t.rv(a[0])
			if kindOf(r) != reflect.Bool {
				t.rpanic("call of reflect.Value.Bool on " + kindOf(r).String() + " Value")
			}
			return r.get()
		},
		"String": func(t *thread, fr *frame, a []Value) Value {
			r, ok := a[0].p.(*rval)
			if !ok {
				return goStr("<invalid Value>")
			}
			if kindOf(r) == reflect.String {
				return r.get()
			}
			return goStr("<" + r.rt.String() + " Value>")
		},
		"Bytes": func(t *thread, fr *frame, a []Value) Value {
			r := t.rv(a[0])
			if kindOf(r) == reflect.Array {
				if r.p == nil {
					t.rpanic("reflect.Value.Bytes of unaddressable byte array")
				}
				return mkSlice(r.p.p.(*agg).e)
			}
			if kindOf(r) != reflect.Slice || ti(elemType(t, r.rt.t)).w != 8 {
				t.rpanic("reflect.Value.Bytes of non-byte slice")
			}
			return r.get()
		},
		"Interface": func(t *thread, fr *frame, a []Value) Value {
			r := t.rv(a[0])
			if r.ro {
				t.rpanic("reflect.Value.Interface: cannot return value obtained from unexported field or method")
			}
			return toIfaceV(t, r)
		},
		"CanInterface": func(t *thread, fr *frame, a []Value) Value { return vBool(!t.rv(a[0]).ro) },
		"CanAddr":      func(t *thread, fr *frame, a []Value) Value { return vBool(t.rv(a[0]).p != nil) },
		"CanSet": func(t *thread, fr *frame, a []Value) Value {
			r, ok := a[0].p.(*rval)
			return vBool(ok && r.p != nil && !r.ro)
		},
		"CanInt":   func(t *thread, fr *frame, a []Value) Value { return vBool(isIntK(kindOf(t.rv(a[0])))) },
		"CanUint":  func(t *thread, fr *frame, a []Value) Value { return vBool(isUintK(kindOf(t.rv(a[0])))) },
		"CanFloat": func(t *thread, fr *frame, a []Value) Value { return vBool(ti(t.rv(a[0]).rt.t).k == kFloat) },
		"Addr": func(t *thread, fr *frame, a []Value) Value {
			r := t.rv(a[0])
			if r.p == nil {
				t.rpanic("reflect.Value.Addr of unaddressable value")
			}
			return Value{p: &rval{rt: rtOf(types.NewPointer(r.rt.t)), v: Value{p: r.p}, ro: r.ro}}
		},
		"IsNil": func(t *thread, fr *frame, a []Value) Value {
			r := t.rv(a[0])
			switch kindOf(r) {
			case reflect.Ptr, reflect.Map, reflect.Slice, reflect.Chan, reflect.Func, reflect.Interface, reflect.UnsafePointer:
				return vBool(r.get().p == nil)
			}
			t.rpanic("call of reflect.Value.IsNil on " + kindOf(r).String() + " Value")
			return Value{}
		},
		"IsZero": func(t *thread, fr *frame, a []Value) Value {
			r := t.rv(a[0])
			return t.run.val(t.isZeroT(r.rt.t, r.get()))
		},
		"Set": func(t *thread, fr *frame, a []Value) Value {
			r := t.rv(a[0])
			t.settable(r, "Set")
			s := t.rv(a[1])
			if s.ro {
				t.rpanic("reflect.Value.Set using value obtained using unexported field")
			}
			storeTo(r.p, t.assignTo(s, r.rt.t))
			return Value{}
		},
		"SetZero": func(t *thread, fr *frame, a []Value) Value {
			r := t.rv(a[0])
			t.settable(r, "SetZero")
			storeTo(r.p, zero(ti(r.rt.t)))
			return Value{}
		},
		"SetInt": func(t *thread, fr *frame, a []Value) Value {
			r := t.rv(a[0])
			t.settable(r, "SetInt")
			if !isIntK(kindOf(r)) {
				t.rpanic("call of reflect.Value.SetInt on " + kindOf(r).String() + " Value")
			}
			*r.p = t.truncTo(a[1], ti(r.rt.t).w)
			return Value{}
		},
		"SetUint": func(t *thread, fr *frame, a []Value) Value {
			r := t.rv(a[0])
			t.settable(r, "SetUint")
			if !isUintK(kindOf(r)) {
				t.rpanic("call of reflect.Value.SetUint on " + kindOf(r).String() + " Value")
			}
			*r.p = t.truncTo(a[1], ti(r.rt.t).w)
			return Value{}
		},
		"SetFloat": func(t *thread, fr *frame, a []Value) Value {
			r := t.rv(a[0])
			t.settable(r, "SetFloat")
			x := ti(r.rt.t)
			if x.k != kFloat {
				t.rpanic("call of reflect.Value.SetFloat on " + kindOf(r).String() + " Value")
			}
			if x.w == 32 {
				*r.p = t.run.val(t.run.f.F64to32(t.run.term(a[1], 64)))
			} else {
				*r.p = a[1]
			}
			return Value{}
		},
		"SetBool": func(t *thread, fr *frame, a []Value) Value {
			r := t.rv(a[0])
			t.settable(r, "SetBool")
			if kindOf(r) != reflect.Bool {
				t.rpanic("call of reflect.Value.SetBool on " + kindOf(r).String() + " Value")
			}
			*r.p = a[1]
			return Value{}
		},
		"SetString": func(t *thread, fr *frame, a []Value) Value {
			r := t.rv(a[0])
			t.settable(r, "SetString")
			if kindOf(r) != reflect.String {
				t.rpanic("call of reflect.Value.SetString on " + kindOf(r).String() + " Value")
			}
			*r.p = a[1]
			return Value{}
		},
		"SetBytes": func(t *thread, fr *frame, a []Value) Value {
			r := t.rv(a[0])
			t.settable(r, "SetBytes")
			if kindOf(r) != reflect.Slice || rkind(elemType(t, r.rt.t)) != reflect.Uint8 {
				t.rpanic("reflect.Value.SetBytes of non-byte slice")
			}
			*r.p = a[1]
			return Value{}
		},
		"SetLen": func(t *thread, fr *frame, a []Value) Value {
			r := t.rv(a[0])
			t.settable(r, "SetLen")
			n := int(t.concInt(a[1]))
			s := slc(*r.p)
			if n < 0 || n > cap(s) {
				t.rpanic("slice length out of range in SetLen")
			}
			*r.p = mkSlice(s[:n])
			return Value{}
		},
		"Slice": func(t *thread, fr *frame, a []Value) Value {
			r := t.rv(a[0])
			i, j := int(t.concInt(a[1])), int(t.concInt(a[2]))
			if kindOf(r) == reflect.String {
				b := strBytes(r.get())
				if i < 0 || j < i || j > len(b) {
					t.rpanic("reflect.Value.Slice: string slice index out of bounds")
				}
				return rvV(r.rt, mkStrV(b[i:j]))
			}
			var s []Value
			rt := r.rt
			if kindOf(r) == reflect.Array {
				s = r.p.p.(*agg).e
				rt = rtOf(types.NewSlice(elemType(t, r.rt.t)))
			} else {
				s = slc(r.get())
			}
			if i < 0 || j < i || j > cap(s) {
				t.rpanic("reflect.Value.Slice: slice index out of bounds")
			}
			return rvV(rt, mkSlice(s[i:j]))
		},
		"MapRange": func(t *thread, fr *frame, a []Value) Value {
			r := t.rv(a[0])
			s := &mapIterS{m: r}
			if m := mapOf(r.get()); m != nil {
				t.mapAccess(m, false)
				s.it = append(s.it, m.ents...)
			}
			return Value{p: &Value{p: s}}
		},
		"MapKeys": func(t *thread, fr *frame, a []Value) Value {
			r := t.rv(a[0])
			kt := rtOf(r.rt.t.Underlying().(*types.Map).Key())
			out := []Value{}
			if m := mapOf(r.get()); m != nil {
				t.mapAccess(m, false)
				for _, e := range m.ents {
					out = append(out, rvV(kt, e.k))
				}
			}
			return mkSlice(out)
		},
		"MapIndex": func(t *thread, fr *frame, a []Value) Value {
			r := t.rv(a[0])
			mt := r.rt.t.Underlying().(*types.Map)
			k := t.assignTo(t.rv(a[1]), mt.Key())
			e := t.mapFind(mapOf(r.get()), ti(mt.Key()), k)
			if e == nil {
				return Value{}
			}
			return rvV(rtOf(mt.Elem()), cp(e.v))
		},
		"SetMapIndex": func(t *thread, fr *frame, a []Value) Value {
			r := t.rv(a[0])
			mt := r.rt.t.Underlying().(*types.Map)
			k := t.assignTo(t.rv(a[1]), mt.Key())
			m := mapOf(r.get())
			if a[2].p == nil {
				if m != nil {
					t.mapDelete(m, ti(mt.Key()), k)
				}
				return Value{}
			}
			if m == nil {
				t.throw(mkIface(t.run.eng.rtPlainErr, goStr("assignment to entry in nil map")))
			}
			t.mapAccess(m, true)
			t.mapSet(m, ti(mt.Key()), k, t.assignTo(t.rv(a[2]), mt.Elem()))
			return Value{}
		},
		"Convert": func(t *thread, fr *frame, a []Value) Value {
			r := t.rv(a[0])
			dst := t.rtArg(a[1])
			if _, ok := dst.t.Underlying().(*types.Interface); ok {
				return rvV(dst, toIfaceV(t, r))
			}
			if !types.ConvertibleTo(r.rt.t, dst.t) {
				t.rpanic("reflect.Value.Convert: not convertible")
			}
			return rvV(dst, mkConvert(r.rt.t, dst.t)(t, cp(r.get())))
		},
		"Call": func(t *thread, fr *frame, a []Value) Value {
			r := t.rv(a[0])
			sig := r.rt.t.Underlying().(*types.Signature)
			var as []Value
			for i, x := range slc(a[1]) {
				as = append(as, t.assignTo(t.rv(x), sig.Params().At(i).Type()))
			}
			res := t.call(fr, r.get(), as, 0)
			var out []Value
			switch sig.Results().Len() {
			case 0:
			case 1:
				out = append(out, rvV(rtOf(sig.Results().At(0).Type()), res))
			default:
				for i, e := range res.p.(*tuple).e {
					out = append(out, rvV(rtOf(sig.Results().At(i).Type()), e))
				}
			}
			return mkSlice(out)
		},
		"OverflowInt": func(t *thread, fr *frame, a []Value) Value {
			r := t.rv(a[0])
			f := t.run.f
			w := ti(r.rt.t).w
			x := t.run.term(a[1], 64)
			return t.run.val(f.BNot(f.Eq(f.SExt(f.Extract(x, 0, w), 64), x)))
		},
		"OverflowUint": func(t *thread, fr *frame, a []Value) Value {
			r := t.rv(a[0])
			f := t.run.f
			w := ti(r.rt.t).w
			x := t.run.term(a[1], 64)
			return t.run.val(f.BNot(f.Eq(f.ZExt(f.Extract(x, 0, w), 64), x)))
		},
		"NumMethod": func(t *thread, fr *frame, a []Value) Value {
			return rtypeMethods["NumMethod"](t, []Value{{p: t.rv(a[0]).rt}})
		},
		"Comparable": func(t *thread, fr *frame, a []Value) Value { return vBool(types.Comparable(t.rv(a[0]).rt.t)) },
		"Pointer": func(t *thread, fr *frame, a []Value) Value {
			v := t.rv(a[0]).get()
			if v.p == nil {
				return Value{}
			}
			return Value{n: 0xc000000000}
		},
		"Grow": func(t *thread, fr *frame, a []Value) Value { return Value{} },
	}
	_ = strings.TrimSpace
}

// deepEq compares two values structurally. strictNil distinguishes nil from
// empty slices and maps, as reflect.DeepEqual does.
func (t *thread) deepEq(ty types.Type, a, b Value, strictNil bool, depth int) *Term {
	f := t.run.f
	if depth > 60 {
		t.unsupported("deep comparison too deep")
	}
	x := ti(ty)
	switch x.k {
	case kInt, kBool:
		return f.Eq(t.run.term(a, x.w), t.run.term(b, x.w))
	case kFloat:
		if !strictNil {
			// bit equality: stronger than ==, and total
			return f.Eq(t.run.term(a, x.w), t.run.term(b, x.w))
		}
		return fpEq(f, t.run.term(a, x.w), t.run.term(b, x.w))
	case kString:
		return t.run.term(t.strEq(a, b), 0)
	case kStruct:
		st := ty.Underlying().(*types.Struct)
		r := f.True
		for i := 0; i < st.NumFields() && r != f.False; i++ {
			r = f.BAnd(r, t.deepEq(st.Field(i).Type(), a.p.(*agg).e[i], b.p.(*agg).e[i], strictNil, depth+1))
		}
		return r
	case kArray, kSlice:
		var p, q []Value
		if x.k == kArray {
			p, q = a.p.(*agg).e, b.p.(*agg).e
		} else {
			if strictNil && (a.p == nil) != (b.p == nil) {
				return f.False
			}
			p, q = slc(a), slc(b)
		}
		if len(p) != len(q) {
			return f.False
		}
		et := elemType(t, ty)
		var parts []*Term
		for i := range p {
			e := t.deepEq(et, p[i], q[i], strictNil, depth+1)
			if e == f.False {
				return e
			}
			parts = append(parts, e)
		}
		return f.BAnd(parts...)
	case kPtr:
		if a.p == b.p {
			return f.True
		}
		if a.p == nil || b.p == nil {
			return f.False
		}
		return t.deepEq(elemType(t, ty), t.loadPtr(a), t.loadPtr(b), strictNil, depth+1)
	case kIface:
		p, q := ifc(a), ifc(b)
		if p == nil || q == nil {
			return f.Bool(p == q)
		}
		if p.rt != q.rt {
			return f.False
		}
		if p.rt == rtypeRT {
			return f.Bool(p.v.p == q.v.p)
		}
		return t.deepEq(p.rt.t, p.v, q.v, strictNil, depth+1)
	case kMap:
		if strictNil && (a.p == nil) != (b.p == nil) {
			return f.False
		}
		m, n := mapOf(a), mapOf(b)
		ln := func(m *mapV) int {
			if m == nil {
				return 0
			}
			return m.n
		}
		if ln(m) != ln(n) {
			return f.False
		}
		if m == nil {
			return f.True
		}
		mt := ty.Underlying().(*types.Map)
		r := f.True
		for _, e := range m.ents {
			if e.dead {
				continue
			}
			// some entry of n has an equal key and value
			any := f.False
			for _, g := range n.ents {
				if g.dead {
					continue
				}
				ke := t.run.term(t.eqVal(ti(mt.Key()), e.k, g.k), 0)
				if ke == f.False {
					continue
				}
				any = f.BOr(any, f.BAnd(ke, t.deepEq(mt.Elem(), e.v, g.v, strictNil, depth+1)))
			}
			r = f.BAnd(r, any)
		}
		return r
	case kReflectValue:
		return f.Bool(a.p == b.p)
	}
	return f.Bool(a.p == b.p && a.n == b.n)
}
