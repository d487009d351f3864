package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"math"
	"sync"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

// pathStop ends the current path.
type pathStop struct {
	kind string // end, infeasible, unsupported, violation, limit, abort
	msg  string
}

// targetPanic is a panic of the interpreted program.
type targetPanic struct {
	v     Value // interface value
	where string
}

type opd struct {
	slot int
	g    *ssa.Global
	c    Value
}

type cinstr func(fr *frame)

type cblock struct {
	idx    int
	instrs []cinstr
	phis   []*cphi
	preds  []int
	n      int
}

type cphi struct {
	dst   int
	edges []opd
}

type cfunc struct {
	fn       *ssa.Function
	once     sync.Once
	name     string
	nat      func(t *thread, fr *frame, args []Value) Value
	blocks   []*cblock
	nslots   int
	nparams  int
	nfree    int
	hasDefer bool
	recov    int
	repo     bool
	hits     atomic.Int64
	err      string
	isInit   bool
}

type deferRec struct {
	call func()
}

type frame struct {
	t         *thread
	run       *Run
	cf        *cfunc
	r         []Value
	next      int // next block, -1 return
	prev      int
	cur       int
	result    Value
	caller    *frame
	defers    []func()
	panicking *targetPanic
	done      bool
	depth     int
	pos       token.Pos
}

var cfCache sync.Map // *ssa.Function -> *cfunc

func (e *Engine) cfuncOf(fn *ssa.Function) *cfunc {
	if v, ok := cfCache.Load(fn); ok {
		return v.(*cfunc)
	}
	v, _ := cfCache.LoadOrStore(fn, &cfunc{fn: fn})
	return v.(*cfunc)
}

func pkgPathOf(fn *ssa.Function) string {
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if o := fn.Origin(); o != nil && o.Pkg != nil {
		return o.Pkg.Pkg.Path()
	}
	if fn.Object() != nil && fn.Object().Pkg() != nil {
		return fn.Object().Pkg().Path()
	}
	if fn.Parent() != nil {
		return pkgPathOf(fn.Parent())
	}
	return ""
}

func (e *Engine) prepare(cf *cfunc) {
	cf.once.Do(func() {
		fn := cf.fn
		cf.name = fn.String()
		cf.isInit = fn.Synthetic == "package initializer"
		o := fn
		if fn.Origin() != nil {
			o = fn.Origin()
		}
		oname := o.String()
		if nat, ok := intrinsics[oname]; ok {
			cf.nat = nat
			return
		}
		if oname == "unique.Make" && fn.Signature.Params().Len() == 1 {
			cf.nat = uniqueMake(fn.Signature.Params().At(0).Type())
			return
		}
		if nat := intrinsicByPkg(pkgPathOf(fn), fn); nat != nil {
			cf.nat = nat
			return
		}
		if fn.Blocks == nil {
			pkg := fn.Pkg
			if pkg == nil && fn.Origin() != nil {
				pkg = fn.Origin().Pkg
			}
			if pkg == nil && fn.Parent() != nil {
				p := fn.Parent()
				for p.Parent() != nil {
					p = p.Parent()
				}
				pkg = p.Pkg
			}
			if pkg != nil {
				pkg.Build()
			}
		}
		if fn.Blocks == nil {
			cf.err = "no body for " + cf.name
			return
		}
		p := pkgPathOf(fn)
		cf.repo = isRepoPath(p)
		e.compile(cf)
	})
}

type compiler struct {
	e     *Engine
	cf    *cfunc
	race  bool // record the memory accesses
	slots map[ssa.Value]int
}

func (c *compiler) slot(v ssa.Value) int {
	if s, ok := c.slots[v]; ok {
		return s
	}
	s := len(c.slots)
	c.slots[v] = s
	return s
}

func (c *compiler) opd(v ssa.Value) opd {
	switch x := v.(type) {
	case *ssa.Const:
		return opd{slot: -1, c: constValue(x)}
	case *ssa.Global:
		return opd{slot: -1, g: x}
	case *ssa.Function:
		return opd{slot: -1, c: Value{p: &closure{fn: x, cf: c.e.cfuncOf(x)}}}
	case *ssa.Builtin:
		return opd{slot: -1}
	}
	return opd{slot: c.slot(v)}
}

func constValue(x *ssa.Const) Value {
	t := ti(x.Type())
	if x.Value == nil {
		return zero(t)
	}
	switch t.k {
	case kBool:
		return vBool(constant.BoolVal(x.Value))
	case kString:
		if x.Value.Kind() == constant.String {
			return goStr(constant.StringVal(x.Value))
		}
		return goStr(string(rune(x.Int64())))
	case kInt:
		v := constant.ToInt(x.Value)
		if i, ok := constant.Int64Val(v); ok {
			return Value{n: uint64(i) & mask(t.w)}
		}
		u, _ := constant.Uint64Val(v)
		return Value{n: u & mask(t.w)}
	case kFloat:
		if t.w == 32 {
			f, _ := constant.Float32Val(x.Value)
			return Value{n: uint64(math.Float32bits(f))}
		}
		f, _ := constant.Float64Val(x.Value)
		return Value{n: math.Float64bits(f)}
	case kComplex:
		re, _ := constant.Float64Val(constant.Real(x.Value))
		im, _ := constant.Float64Val(constant.Imag(x.Value))
		return Value{p: complex(re, im)}
	case kUnsafePtr, kPtr:
		i, _ := constant.Uint64Val(constant.ToInt(x.Value))
		return Value{n: i}
	}
	panic(fmt.Sprintf("const %v of type %v", x, x.Type()))
}

func (fr *frame) get(o *opd) Value {
	if o.slot >= 0 {
		return fr.r[o.slot]
	}
	if o.g != nil {
		return Value{p: fr.run.global(fr.t, o.g)}
	}
	return o.c
}

func (e *Engine) compile(cf *cfunc) {
	fn := cf.fn
	c := &compiler{e: e, cf: cf, race: raceTracked(fn), slots: map[ssa.Value]int{}}
	for _, p := range fn.Params {
		c.slot(p)
	}
	cf.nparams = len(fn.Params)
	for _, p := range fn.FreeVars {
		c.slot(p)
	}
	cf.nfree = len(fn.FreeVars)
	cf.recov = -1
	if fn.Recover != nil {
		cf.recov = fn.Recover.Index
	}
	for _, b := range fn.Blocks {
		cb := &cblock{idx: b.Index}
		for _, p := range b.Preds {
			cb.preds = append(cb.preds, p.Index)
		}
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Phi:
				ph := &cphi{dst: c.slot(x)}
				for _, e := range x.Edges {
					ph.edges = append(ph.edges, c.opd(e))
				}
				cb.phis = append(cb.phis, ph)
				continue
			case *ssa.DebugRef:
				continue
			case *ssa.Defer:
				cf.hasDefer = true
			}
			ci := c.instr(in)
			if ci != nil {
				cb.instrs = append(cb.instrs, ci)
			}
		}
		cb.n = len(cb.instrs) + len(cb.phis)
		cf.blocks = append(cf.blocks, cb)
	}
	cf.nslots = len(c.slots)
}

// call runs a function value.
func (t *thread) call(fr *frame, fv Value, args []Value, pos token.Pos) Value {
	cl, ok := fv.p.(*closure)
	if !ok {
		if fv.p == nil {
			t.nilDeref()
		}
		t.unsupported("call of %T", fv.p)
	}
	if cl.nat != nil {
		return cl.nat(t, args)
	}
	if cl.cf == nil {
		cl.cf = t.run.eng.cfuncOf(cl.fn)
	}
	return t.callFn(fr, cl.cf, args, cl.env, pos)
}

const maxDepth = 3000

func (t *thread) callFn(caller *frame, cf *cfunc, args []Value, env []Value, pos token.Pos) Value {
	t.run.eng.prepare(cf)
	if caller != nil && pos != token.NoPos {
		caller.pos = pos
	}
	if cf.isInit {
		return Value{} // packages are initialised by initPkg
	}
	if cf.nat != nil {
		cf.hits.Store(1)
		return cf.nat(t, caller, args)
	}
	if cf.err != "" {
		t.unsupported("%s", cf.err)
	}
	if t.run.eng.memo != nil {
		if m, ok := t.run.eng.memo[cf.name]; ok {
			return m(t, caller, cf, args, env)
		}
	}
	return t.execFn(caller, cf, args, env)
}

func (t *thread) execFn(caller *frame, cf *cfunc, args []Value, env []Value) Value {
	if cf.hits.Load() == 0 {
		cf.hits.Store(1)
	}
	fr := &frame{t: t, run: t.run, cf: cf, caller: caller, prev: -1}
	if caller != nil {
		fr.depth = caller.depth + 1
		if fr.depth > maxDepth {
			if t.run.stackViolation {
				t.violation("stack", "unbounded recursion in "+cf.name)
			}
			panic(&pathStop{"limit", "call depth in " + cf.name})
		}
	}
	saveStack, saveSp := t.stack, t.sp
	if t.sp+cf.nslots > len(t.stack) {
		if len(t.spare) >= cf.nslots {
			t.stack, t.spare = t.spare, nil
		} else {
			t.stack = make([]Value, max(1<<13, cf.nslots*2))
		}
		t.sp = 0
	}
	fr.r = t.stack[t.sp : t.sp+cf.nslots : t.sp+cf.nslots]
	t.sp += cf.nslots
	if len(args) != cf.nparams {
		panic(fmt.Sprintf("arity mismatch calling %s: %d vs %d", cf.name, len(args), cf.nparams))
	}
	copy(fr.r, args)
	copy(fr.r[cf.nparams:], env)
	t.top = fr
	if cf.hasDefer {
		fr.protected()
	} else {
		fr.loop(0)
	}
	t.top = caller
	if len(saveStack) > 0 && len(t.stack) > 0 && &saveStack[0] != &t.stack[0] {
		t.spare = t.stack
	}
	t.stack, t.sp = saveStack, saveSp
	return fr.result
}

func (fr *frame) loop(start int) {
	blocks := fr.cf.blocks
	cur := start
	run := fr.run
	for {
		b := blocks[cur]
		fr.cur = cur
		run.steps += int64(b.n)
		if run.steps > run.maxSteps {
			run.stepLimit(fr)
		}
		if len(b.phis) > 0 {
			var pi int
			for i, p := range b.preds {
				if p == fr.prev {
					pi = i
					break
				}
			}
			if len(b.phis) == 1 {
				fr.r[b.phis[0].dst] = fr.get(&b.phis[0].edges[pi])
			} else {
				var tmp [8]Value
				vals := tmp[:0]
				for _, ph := range b.phis {
					vals = append(vals, fr.get(&ph.edges[pi]))
				}
				for i, ph := range b.phis {
					fr.r[ph.dst] = vals[i]
				}
			}
		}
		for _, in := range b.instrs {
			in(fr)
		}
		if fr.next < 0 {
			return
		}
		fr.prev = cur
		cur = fr.next
	}
}

func (fr *frame) protected() {
	t := fr.t
	myStack, mySp := t.stack, t.sp
	run := func(start int) {
		defer func() {
			if fr.done {
				return
			}
			r := recover()
			if tp, ok := r.(*targetPanic); ok {
				fr.panicking = tp
				t.top = fr
				t.stack, t.sp = myStack, mySp
				return
			}
			panic(r)
		}()
		fr.done = false
		fr.loop(start)
		fr.done = true
	}
	run(0)
	if fr.panicking != nil {
		fr.runDefers()
		if fr.panicking != nil {
			panic(fr.panicking)
		}
		if fr.cf.recov >= 0 {
			fr.prev = -1
			fr.next = 0
			fr.loop(fr.cf.recov)
		} else {
			fr.result = zeroResult(fr.cf.fn)
		}
	}
}

func zeroResult(fn *ssa.Function) Value {
	rs := fn.Signature.Results()
	switch rs.Len() {
	case 0:
		return Value{}
	case 1:
		return zero(ti(rs.At(0).Type()))
	}
	return zero(ti(rs))
}

func (fr *frame) runDefers() {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			ok := false
			defer func() {
				if ok {
					return
				}
				r := recover()
				if tp, is := r.(*targetPanic); is {
					fr.panicking = tp
					fr.t.top = fr
					return
				}
				panic(r)
			}()
			d()
			ok = true
		}()
	}
}

// ---- errors raised by the interpreted program ----

func (t *thread) throw(v Value) {
	panic(&targetPanic{v: v, where: t.where()})
}

func (t *thread) rtPanic(format string, a ...any) {
	msg := fmt.Sprintf(format, a...)
	t.throw(mkIface(t.run.eng.rtErrString, goStr(msg)))
}

func (t *thread) nilDeref() {
	t.rtPanic("invalid memory address or nil pointer dereference")
}

func (t *thread) unsupported(format string, a ...any) {
	panic(&pathStop{"unsupported", fmt.Sprintf(format, a...) + " at " + t.where()})
}

// where describes the innermost repository position on the stack.
func (t *thread) where() string {
	eng := t.run.eng
	s := ""
	n := 0
	for fr := t.top; fr != nil; fr = fr.caller {
		if n < 3 || (fr.cf.repo && n < 12) {
			p := ""
			if fr.pos != token.NoPos {
				pp := eng.prog.fset.Position(fr.pos)
				p = fmt.Sprintf(" %s:%d", shortFile(pp.Filename), pp.Line)
			}
			if s != "" {
				s += " <- "
			}
			s += fr.cf.name + p
		}
		n++
		if n > 40 {
			break
		}
	}
	return s
}

func shortFile(f string) string {
	n := 0
	for i := len(f) - 1; i >= 0; i-- {
		if f[i] == '/' {
			n++
			if n == 2 {
				return f[i+1:]
			}
		}
	}
	return f
}

// ---- scalar helpers ----

func (r *Run) term(v Value, w int) *Term {
	if v.p == nil {
		return r.f.Const(w, v.n)
	}
	t, ok := v.p.(*Term)
	if !ok {
		panic(fmt.Sprintf("term of %T", v.p))
	}
	return t
}

func (r *Run) val(t *Term) Value {
	if t.op == OConst {
		return Value{n: t.k}
	}
	return Value{p: t}
}

func isSym(v Value) bool {
	_, ok := v.p.(*Term)
	return ok
}

// cond decides a boolean value, forking when it is symbolic.
func (t *thread) cond(v Value) bool {
	if v.p == nil {
		return v.n != 0
	}
	return t.run.branch(t, v.p.(*Term))
}

// concInt concretises an integer (forking over its values).
func (t *thread) concInt(v Value) uint64 {
	if v.p == nil {
		return v.n
	}
	x, ok := v.p.(*Term)
	if !ok {
		t.unsupported("integer expected, got %T", v.p)
	}
	return t.run.concretise(t, x)
}

func fbits(v uint64, w int) float64 {
	if w == 32 {
		return float64(math.Float32frombits(uint32(v)))
	}
	return math.Float64frombits(v)
}

func tobits(f float64, w int) uint64 {
	if w == 32 {
		return uint64(math.Float32bits(float32(f)))
	}
	return math.Float64bits(f)
}
