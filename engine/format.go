package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"
)

// fmtV renders one operand. Symbolic scalars in error texts are opaque.
func (t *thread) fmtArg(verb byte, flags string, width int, arg Value, depth int) []Value {
	str := func(s string) []Value { return strBytes(goStr(s)) }
	i := ifc(arg)
	if i == nil {
		if verb == 'T' {
			return str("<nil>")
		}
		return str("<nil>")
	}
	if verb == 'T' {
		return str(i.rt.String())
	}
	if i.rt == rtypeRT {
		return str(i.v.p.(*rtype).String())
	}
	if isReflectValue(i.rt.t) {
		rv, _ := i.v.p.(*rval)
		if rv == nil {
			return str("<invalid reflect.Value>")
		}
		return t.fmtVal(verb, flags, width, rv.rt.t, rv.get(), depth)
	}
	return t.fmtVal(verb, flags, width, i.rt.t, i.v, depth)
}

// hasSym tells whether a value contains a symbolic scalar.
func hasSym(v Value, depth int) bool {
	if depth > 4 {
		return false
	}
	switch x := v.p.(type) {
	case *Term, *symStr:
		return true
	case *agg:
		for _, e := range x.e {
			if hasSym(e, depth+1) {
				return true
			}
		}
	case *slice:
		for _, e := range x.a {
			if hasSym(e, depth+1) {
				return true
			}
		}
	case *Value:
		return x != nil && hasSym(*x, depth+1)
	}
	return false
}

var stringerIface *types.Interface

func init() {
	sig := types.NewSignatureType(nil, nil, nil, nil, types.NewTuple(types.NewVar(0, nil, "", types.Typ[types.String])), false)
	stringerIface = types.NewInterfaceType([]*types.Func{types.NewFunc(0, nil, "String", sig)}, nil)
	stringerIface.Complete()
}

func (t *thread) fmtVal(verb byte, flags string, width int, ty types.Type, v Value, depth int) []Value {
	str := func(s string) []Value { return strBytes(goStr(s)) }
	if depth > 6 {
		return str("...")
	}
	if (verb == 'v' || verb == 's' || verb == 'q') && !strings.Contains(flags, "#") {
		for k, it := range []*types.Interface{errorIface, stringerIface} {
			if types.Implements(ty, it) {
				if _, isPtr := ty.Underlying().(*types.Pointer); isPtr && v.p == nil {
					return str("<nil>")
				}
				if k == 1 && t.opaque > 0 && hasSym(v, 0) {
					// only the text of an error depends on it
					return str("<" + ty.String() + ">")
				}
				rt := rtOf(ty)
				f := t.run.eng.method(rt, it.Method(0))
				if f != nil {
					s := t.callFn(t.top, t.run.eng.cfuncOf(f), []Value{v}, nil, 0)
					return strBytes(s)
				}
			}
		}
	}
	x := ti(ty)
	switch x.k {
	case kString:
		b := strBytes(v)
		if verb == 'q' {
			return append(append(str("\""), b...), str("\"")...)
		}
		if verb == 'x' || verb == 'X' {
			return t.hexBytes(b, verb)
		}
		return pad(b, width, strings.Contains(flags, "-"), ' ')
	case kBool:
		if v.p != nil {
			if t.opaque > 0 {
				return str("<bool>")
			}
			return str(strconv.FormatBool(t.cond(v)))
		}
		return str(strconv.FormatBool(v.n != 0))
	case kInt:
		zeroPad := byte(' ')
		if strings.Contains(flags, "0") {
			zeroPad = '0'
		}
		if v.p != nil {
			if verb == 'x' || verb == 'X' {
				digits := (x.w + 3) / 4
				if !x.signed && zeroPad == '0' && width >= digits {
					b := t.hexTerm(v.p.(*Term), digits, verb)
					return pad(b, width, false, '0')
				}
				if !x.signed {
					f := t.run.f
					tm := v.p.(*Term)
					n := 1
					for n < digits {
						if t.run.branch(t, f.Eq(f.Extract(tm, 4*n, x.w-4*n), f.Const(x.w-4*n, 0))) {
							break
						}
						n++
					}
					return pad(t.hexTerm(tm, n, verb), width, false, zeroPad)
				}
			}
			if t.opaque > 0 {
				return str("<int>")
			}
			v = Value{n: t.concInt(v)}
		}
		var s string
		base := 10
		switch verb {
		case 'x', 'X':
			base = 16
		case 'b':
			base = 2
		case 'o':
			base = 8
		case 'c':
			return str(string(rune(v.n)))
		}
		if x.signed {
			s = strconv.FormatInt(sext(v.n, x.w), base)
		} else {
			s = strconv.FormatUint(v.n, base)
		}
		if verb == 'X' {
			s = strings.ToUpper(s)
		}
		return pad(str(s), width, strings.Contains(flags, "-"), zeroPad)
	case kFloat:
		if v.p != nil {
			return str("<float>")
		}
		return str(fmt.Sprint(fbits(v.n, x.w)))
	case kPtr:
		if v.p == nil {
			return str("<nil>")
		}
		if p, ok := v.p.(*Value); ok && depth == 0 {
			et := ty.Underlying().(*types.Pointer).Elem()
			if k := ti(et).k; k == kStruct || k == kArray {
				return append(str("&"), t.fmtVal(verb, flags, 0, et, *p, depth+1)...)
			}
		}
		return str("0xc000000000")
	case kSlice, kArray:
		var el []Value
		var et types.Type
		if x.k == kSlice {
			el, et = slc(v), ty.Underlying().(*types.Slice).Elem()
		} else {
			el, et = v.p.(*agg).e, ty.Underlying().(*types.Array).Elem()
		}
		if ti(et).w == 8 && ti(et).k == kInt && (verb == 'x' || verb == 'X') {
			return t.hexBytes(el, verb)
		}
		if ti(et).w == 8 && verb == 's' {
			return el
		}
		out := str("[")
		for i, e := range el {
			if i > 0 {
				out = append(out, str(" ")...)
			}
			out = append(out, t.fmtVal(verb, flags, 0, et, e, depth+1)...)
		}
		return append(out, str("]")...)
	case kStruct:
		st := ty.Underlying().(*types.Struct)
		out := str("{")
		for i := 0; i < st.NumFields(); i++ {
			if i > 0 {
				out = append(out, str(" ")...)
			}
			out = append(out, t.fmtVal(verb, flags, 0, st.Field(i).Type(), v.p.(*agg).e[i], depth+1)...)
		}
		return append(out, str("}")...)
	case kIface:
		return t.fmtArg(verb, flags, width, v, depth+1)
	case kReflectValue:
		return t.fmtArg(verb, flags, width, mkIface(rtOf(ty), v), depth+1)
	case kMap:
		return str("map[...]")
	}
	return str("?")
}

func pad(b []Value, width int, left bool, c byte) []Value {
	if len(b) >= width {
		return b
	}
	p := make([]Value, width-len(b))
	for i := range p {
		p[i].n = uint64(c)
	}
	if left {
		for i := range p {
			p[i].n = ' '
		}
		return append(append([]Value{}, b...), p...)
	}
	return append(p, b...)
}

// hexTerm gives n hex digits of x, exactly.
func (t *thread) hexTerm(x *Term, n int, verb byte) []Value {
	f := t.run.f
	digits := "0123456789abcdef"
	if verb == 'X' {
		digits = "0123456789ABCDEF"
	}
	tab := make([]uint64, 16)
	for i := range tab {
		tab[i] = uint64(digits[i])
	}
	out := make([]Value, n)
	for i := 0; i < n; i++ {
		lo := 4 * (n - 1 - i)
		w := min(4, x.w-lo)
		nb := f.ZExt(f.Extract(x, lo, w), 4)
		out[i] = t.run.val(f.Table(tab, nb, 8))
	}
	return out
}

func (t *thread) hexBytes(b []Value, verb byte) []Value {
	var out []Value
	for _, x := range b {
		out = append(out, t.hexTerm(t.run.term(x, 8), 2, verb)...)
	}
	return out
}

func (t *thread) errorf(format Value, args []Value) Value {
	t.opaque++
	s := t.sprintf(format, args)
	t.opaque--
	fs, _ := strConc(format)
	var wrapped []Value
	ai := 0
	for i := 0; i < len(fs); i++ {
		if fs[i] != '%' {
			continue
		}
		i++
		for i < len(fs) && strings.IndexByte("+-# 0123456789.", fs[i]) >= 0 {
			i++
		}
		if i >= len(fs) || fs[i] == '%' {
			continue
		}
		if fs[i] == 'w' && ai < len(args) {
			if x := ifc(args[ai]); x != nil && x.rt != rtypeRT && types.Implements(x.rt.t, errorIface) {
				wrapped = append(wrapped, args[ai])
			}
		}
		ai++
	}
	e := t.run.eng
	switch len(wrapped) {
	case 0:
		return t.mkErr(s)
	case 1:
		if wt := e.stdType("fmt", "wrapError"); wt != nil {
			v := zero(ti(wt))
			v.p.(*agg).e[fieldIdx(wt, "msg")] = s
			v.p.(*agg).e[fieldIdx(wt, "err")] = wrapped[0]
			return mkIface(rtOf(types.NewPointer(wt)), Value{p: &v})
		}
	}
	if wt := e.stdType("fmt", "wrapErrors"); wt != nil {
		v := zero(ti(wt))
		v.p.(*agg).e[fieldIdx(wt, "msg")] = s
		v.p.(*agg).e[fieldIdx(wt, "errs")] = mkSlice(wrapped)
		return mkIface(rtOf(types.NewPointer(wt)), Value{p: &v})
	}
	return t.mkErr(s)
}

func (t *thread) sprintf(format Value, args []Value) Value {
	fs, ok := strConc(format)
	if !ok {
		t.unsupported("symbolic format string")
	}
	var out []Value
	ai := 0
	for i := 0; i < len(fs); i++ {
		c := fs[i]
		if c != '%' {
			out = append(out, Value{n: uint64(c)})
			continue
		}
		i++
		flags := ""
		for i < len(fs) && strings.IndexByte("+-# 0", fs[i]) >= 0 {
			flags += string(fs[i])
			i++
		}
		width := 0
		for i < len(fs) && fs[i] >= '0' && fs[i] <= '9' {
			width = width*10 + int(fs[i]-'0')
			i++
		}
		if i < len(fs) && fs[i] == '.' {
			i++
			for i < len(fs) && fs[i] >= '0' && fs[i] <= '9' {
				i++
			}
		}
		if i >= len(fs) {
			break
		}
		verb := fs[i]
		if verb == '%' {
			out = append(out, Value{n: '%'})
			continue
		}
		if verb == 'w' {
			verb = 'v'
		}
		if ai >= len(args) {
			out = append(out, strBytes(goStr("%!"+string(verb)+"(MISSING)"))...)
			continue
		}
		out = append(out, t.fmtArg(verb, flags, width, args[ai], 0)...)
		ai++
	}
	return mkStrV(out)
}

func (t *thread) sprint(args []Value, ln bool) Value {
	var out []Value
	for i, a := range args {
		if i > 0 && ln {
			out = append(out, Value{n: ' '})
		}
		out = append(out, t.fmtArg('v', "", 0, a, 0)...)
	}
	if ln {
		out = append(out, Value{n: '\n'})
	}
	return mkStrV(out)
}
