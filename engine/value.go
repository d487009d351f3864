package main

import (
	"fmt"
	"go/types"
	"sync"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// Value is an interpreted Go value.
//
//	p == nil            concrete scalar n (bool, int, float bits) or nil/zero reference
//	p is *Term          symbolic scalar
//	p is string/*symStr string
//	p is *agg           struct or array (in registers: immutable)
//	p is *Value         pointer to a memory cell
//	p is *symElem       pointer to an element at a symbolic index
//	p is *slice, *mapV, *chanV, *closure, *ifaceV, *rval, *tuple ...
type Value struct {
	n uint64
	p any
}

type agg struct{ e []Value }

type slice struct{ a []Value }

type symStr struct{ b []Value }

type symElem struct {
	a   []Value
	idx *Term
	w   int
}

type dataPtr struct{ a []Value } // unsafe.SliceData / StringData

type ifaceV struct {
	rt *rtype
	v  Value
}

type closure struct {
	fn   *ssa.Function
	env  []Value
	cf   *cfunc
	nat  func(t *thread, args []Value) Value // native function
	name string
}

type tuple struct{ e []Value }

type mapEntry struct {
	k, v Value
	dead bool
}

type mapV struct {
	ents []*mapEntry
	idx  map[any]*mapEntry // concrete keys
	sym  int               // number of live entries with non-indexable keys
	n    int
}

type iterV struct {
	m    *mapV
	todo []*mapEntry
	str  []Value
	pos  int
}

// rtype is the canonical representation of a type.
type rtype struct {
	t     types.Type
	id    int
	mu    sync.Mutex
	ms    map[string]*ssa.Function
	sz    int64
	szOK  bool
	kind  int
	kindO bool
}

var (
	rtMu    sync.Mutex
	rtMap   typeutil.Map
	rtCache sync.Map // types.Type -> *rtype
	rtNext  int
)

func rtOf(t types.Type) *rtype {
	if v, ok := rtCache.Load(t); ok {
		return v.(*rtype)
	}
	rtMu.Lock()
	defer rtMu.Unlock()
	ut := types.Unalias(t)
	if v := rtMap.At(ut); v != nil {
		rtCache.Store(t, v)
		return v.(*rtype)
	}
	r := &rtype{t: ut, id: rtNext, ms: map[string]*ssa.Function{}}
	rtNext++
	rtMap.Set(ut, r)
	rtCache.Store(t, r)
	return r
}

// tk classifies types for the interpreter.
type tk uint8

const (
	kInt tk = iota
	kBool
	kFloat
	kComplex
	kString
	kPtr
	kSlice
	kMap
	kChan
	kFunc
	kIface
	kStruct
	kArray
	kUnsafePtr
	kTuple
	kReflectValue
	kNilT
)

type tinfo struct {
	k      tk
	w      int // bits for scalars
	signed bool
	n      int    // array length
	elem   *tinfo // array
	fields []*tinfo
	t      types.Type
}

var tiCache sync.Map // types.Type -> *tinfo

func isReflectValue(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == "Value" && n.Obj().Pkg() != nil && (n.Obj().Pkg().Path() == "reflect" || n.Obj().Pkg().Path() == "internal/reflectlite")
}

func isReflectPtrOpaque(t types.Type) bool { return false }

func ti(t types.Type) *tinfo {
	if v, ok := tiCache.Load(t); ok {
		return v.(*tinfo)
	}
	r := mkTinfo(t)
	tiCache.Store(t, r)
	return r
}

func mkTinfo(t types.Type) *tinfo {
	if isReflectValue(t) {
		return &tinfo{k: kReflectValue, t: t}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return &tinfo{k: kBool, w: 0, t: t}
		case types.Int, types.Int64, types.UntypedInt:
			return &tinfo{k: kInt, w: 64, signed: true, t: t}
		case types.Int8:
			return &tinfo{k: kInt, w: 8, signed: true, t: t}
		case types.Int16:
			return &tinfo{k: kInt, w: 16, signed: true, t: t}
		case types.Int32, types.UntypedRune:
			return &tinfo{k: kInt, w: 32, signed: true, t: t}
		case types.Uint, types.Uint64, types.Uintptr:
			return &tinfo{k: kInt, w: 64, t: t}
		case types.Uint8:
			return &tinfo{k: kInt, w: 8, t: t}
		case types.Uint16:
			return &tinfo{k: kInt, w: 16, t: t}
		case types.Uint32:
			return &tinfo{k: kInt, w: 32, t: t}
		case types.Float32:
			return &tinfo{k: kFloat, w: 32, t: t}
		case types.Float64, types.UntypedFloat:
			return &tinfo{k: kFloat, w: 64, t: t}
		case types.Complex64, types.Complex128, types.UntypedComplex:
			return &tinfo{k: kComplex, t: t}
		case types.String, types.UntypedString:
			return &tinfo{k: kString, t: t}
		case types.UnsafePointer:
			return &tinfo{k: kUnsafePtr, t: t}
		case types.UntypedNil:
			return &tinfo{k: kNilT, t: t}
		}
		panic("basic kind " + u.String())
	case *types.Pointer:
		return &tinfo{k: kPtr, t: t}
	case *types.Slice:
		return &tinfo{k: kSlice, t: t}
	case *types.Map:
		return &tinfo{k: kMap, t: t}
	case *types.Chan:
		return &tinfo{k: kChan, t: t}
	case *types.Signature:
		return &tinfo{k: kFunc, t: t}
	case *types.Interface:
		return &tinfo{k: kIface, t: t}
	case *types.Struct:
		r := &tinfo{k: kStruct, t: t}
		for i := 0; i < u.NumFields(); i++ {
			r.fields = append(r.fields, ti(u.Field(i).Type()))
		}
		return r
	case *types.Array:
		return &tinfo{k: kArray, n: int(u.Len()), elem: ti(u.Elem()), t: t}
	case *types.Tuple:
		r := &tinfo{k: kTuple, t: t}
		for i := 0; i < u.Len(); i++ {
			r.fields = append(r.fields, ti(u.At(i).Type()))
		}
		return r
	}
	panic(fmt.Sprintf("tinfo: %T %v", t.Underlying(), t))
}

func (x *tinfo) isRef() bool { return x.k != kStruct && x.k != kArray && x.k != kTuple }

func zero(x *tinfo) Value {
	switch x.k {
	case kStruct:
		e := make([]Value, len(x.fields))
		for i, f := range x.fields {
			if !f.isRef() {
				e[i] = zero(f)
			}
		}
		return Value{p: &agg{e}}
	case kArray:
		e := make([]Value, x.n)
		if !x.elem.isRef() {
			for i := range e {
				e[i] = zero(x.elem)
			}
		}
		return Value{p: &agg{e}}
	case kTuple:
		e := make([]Value, len(x.fields))
		for i, f := range x.fields {
			e[i] = zero(f)
		}
		return Value{p: &tuple{e}}
	}
	return Value{}
}

// cp copies a value so that aggregates are not shared.
func cp(v Value) Value {
	if a, ok := v.p.(*agg); ok {
		e := make([]Value, len(a.e))
		for i, x := range a.e {
			if _, ok := x.p.(*agg); ok {
				x = cp(x)
			}
			e[i] = x
		}
		return Value{p: &agg{e}}
	}
	return v
}

// storeTo writes v into the cell, keeping aggregate cells in place.
func storeTo(c *Value, v Value) {
	if a, ok := v.p.(*agg); ok {
		d, ok := c.p.(*agg)
		if !ok || len(d.e) != len(a.e) {
			*c = cp(v)
			return
		}
		if d == a {
			return
		}
		for i := range a.e {
			if _, ok := a.e[i].p.(*agg); ok {
				storeTo(&d.e[i], a.e[i])
			} else {
				d.e[i] = a.e[i]
			}
		}
		return
	}
	*c = v
}

func mkStrV(b []Value) Value {
	for i := range b {
		if b[i].p != nil {
			c := make([]Value, len(b))
			copy(c, b)
			return Value{p: &symStr{c}}
		}
	}
	bs := make([]byte, len(b))
	for i := range b {
		bs[i] = byte(b[i].n)
	}
	return Value{p: string(bs)}
}

func goStr(s string) Value { return Value{p: s} }

func strLen(v Value) int {
	switch s := v.p.(type) {
	case nil:
		return 0
	case string:
		return len(s)
	case *symStr:
		return len(s.b)
	}
	panic(fmt.Sprintf("strLen %T", v.p))
}

func strBytes(v Value) []Value {
	switch s := v.p.(type) {
	case nil:
		return nil
	case string:
		r := make([]Value, len(s))
		for i := 0; i < len(s); i++ {
			r[i].n = uint64(s[i])
		}
		return r
	case *symStr:
		return s.b
	}
	panic(fmt.Sprintf("strBytes %T", v.p))
}

func strConc(v Value) (string, bool) {
	switch s := v.p.(type) {
	case nil:
		return "", true
	case string:
		return s, true
	}
	return "", false
}

func slc(v Value) []Value {
	if v.p == nil {
		return nil
	}
	return v.p.(*slice).a
}

func mkSlice(a []Value) Value { return Value{p: &slice{a}} }

func bytesToSlice(b []byte) Value {
	a := make([]Value, len(b))
	for i := range b {
		a[i].n = uint64(b[i])
	}
	return mkSlice(a)
}

func vBool(b bool) Value {
	if b {
		return Value{n: 1}
	}
	return Value{}
}

func vInt(i int) Value { return Value{n: uint64(int64(i))} }

func mkIface(rt *rtype, v Value) Value { return Value{p: &ifaceV{rt, v}} }

func ifc(v Value) *ifaceV {
	if v.p == nil {
		return nil
	}
	return v.p.(*ifaceV)
}

var uniq atomic.Int64
