package main

import (
	"encoding/binary"
	"fmt"
	"go/token"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"go/types"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// Engine holds everything shared by the workers.
type Engine struct {
	prog         *Program
	msets        typeutil.MethodSetCache
	rtErrString  *rtype
	rtPlainErr   *rtype
	memo         map[string]func(t *thread, caller *frame, cf *cfunc, args, env []Value) Value
	errStrRT     *rtype
	stats        Stats
	trace        bool
	memoMu       sync.Mutex
	memoTab      map[string]*Value
	concreteOnly bool // replay mode: follow the model only
	tier         string
}

type dec struct {
	kind  uint8 // 0 branch, 1 concretise, 2 choose
	taken bool
	val   uint64
}

type workItem struct {
	prefix []dec
	last   *dec
	base   map[string]uint64
	delta  map[string]uint64
}

// Violation is a counterexample.
type Violation struct {
	Kind    string            `json:"kind"`
	Msg     string            `json:"msg"`
	Where   string            `json:"where"`
	Inputs  map[string]any    `json:"inputs"`
	Choices []Choice          `json:"choices,omitempty"`
	Sched   bool              `json:"schedule_dependent"`
	Model   map[string]uint64 `json:"model"`
	Decs    []uint64          `json:"-"`
	Notes   []string          `json:"notes,omitempty"`
}

type Choice struct {
	Name string `json:"name"`
	Val  int    `json:"value"`
}

// Job explores one harness.
type Job struct {
	eng      *Engine
	fn       *ssa.Function
	name     string
	mu       sync.Mutex
	cond     *sync.Cond
	items    []*workItem
	active   int
	stopped  bool
	deadline time.Time
	maxPaths int64
	maxViol  int
	workers  int

	// results
	Paths       int64
	Completed   int64
	Infeasible  int64
	Limits      map[string]int
	Unsupported map[string]int
	Violations  []*Violation
	violKeys    map[string]bool
	Branches    int64
	Asserts     int64
	Steps       int64
	MaxDepth    int
	Reached     map[string]int64
	Samples     []map[string]any
	TimedOut    bool
	Errors      []string
	Sched       int64
	Unknown     int64
	SchedPaths  int64
	single      *workItem // replay
	onlySingle  bool
	maxSteps    int64
	knownFn     func(*Violation) bool
	nUnknownV   int
}

type worker struct {
	job  *Job
	f    *Factory
	s    *Solver
	qc   map[string]qres
	runs int
}

type qres struct {
	r Result
	m map[string]uint64
}

// Run is one execution of the harness.
type Run struct {
	eng  *Engine
	job  *Job
	w    *worker
	f    *Factory
	item *workItem
	pos  int
	npre int
	decs []dec

	model    map[string]uint64
	pc       []*Term
	pcset    map[*Term]bool
	byVar    map[int32][]int // var id -> constraint indices
	known    map[*Term]*Term
	knownV   map[int32]bool
	memo     map[*Term]*Term
	globals  map[*ssa.Global]*Value
	inited   map[*ssa.Package]bool
	inputs   []inputRec
	names    map[string]int
	choices  []Choice
	threads  []*thread
	cur      *thread
	dead     bool
	stop     *pathStop
	doneCh   chan struct{}
	live     sync.WaitGroup
	locks    map[*Value]*lockState
	side     map[any]any
	timers   []*timer
	timerSeq int
	now      int64
	steps    int64
	maxSteps int64
	nosched  int

	preempt        int
	allOrders      bool
	mapOrder       bool
	allocLimit     int64
	stackViolation bool
	stepViolation  bool
	timerFires     int
	maxTimerFires  int
	switches       int
	nbranch        int64
	nassert        int64
	viol           *Violation
	reached        map[string]bool
	notes          []string
	inInit         int
	timerRace      int
	raceCheck      bool
	syncVC         map[any]vclock
	mapAcc         map[*mapV]*mapAcc
	cells          map[*Value]*shadow
	aborting       bool
}

type inputRec struct {
	name string
	kind string // u8.. , bytes, str, bool
	ts   []*Term
	n    int
}

func (j *Job) push(it *workItem) {
	if j.onlySingle {
		return
	}
	j.mu.Lock()
	j.items = append(j.items, it)
	j.mu.Unlock()
	j.cond.Signal()
}

// Explore runs the job to completion or its limits.
func (j *Job) Explore() {
	j.cond = sync.NewCond(&j.mu)
	j.Limits = map[string]int{}
	j.Unsupported = map[string]int{}
	j.violKeys = map[string]bool{}
	j.Reached = map[string]int64{}
	first := &workItem{}
	if j.single != nil {
		first = j.single
	}
	j.items = []*workItem{first}
	var wg sync.WaitGroup
	n := j.workers
	if n == 0 {
		n = 8
	}
	stopTimer := time.AfterFunc(time.Until(j.deadline), func() {
		j.mu.Lock()
		if !j.stopped {
			j.stopped = true
			j.TimedOut = true
		}
		j.mu.Unlock()
		j.cond.Broadcast()
	})
	defer stopTimer.Stop()
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			w := &worker{job: j}
			defer func() {
				if w.s != nil {
					w.s.Close()
				}
			}()
			for {
				j.mu.Lock()
				for len(j.items) == 0 && j.active > 0 && !j.stopped {
					j.cond.Wait()
				}
				if j.stopped || len(j.items) == 0 {
					j.mu.Unlock()
					j.cond.Broadcast()
					return
				}
				it := j.items[len(j.items)-1]
				j.items = j.items[:len(j.items)-1]
				j.active++
				j.mu.Unlock()
				w.runItem(it)
				j.mu.Lock()
				j.active--
				if j.maxPaths > 0 && j.Paths >= j.maxPaths && !j.stopped {
					j.stopped = true
					j.Limits["max-paths"]++
				}
				j.mu.Unlock()
				j.cond.Broadcast()
			}
		}()
	}
	wg.Wait()
}

func (w *worker) reset() {
	if w.s != nil {
		w.s.Close()
	}
	w.f = NewFactory()
	w.s = NewSolver(w.f, &w.job.eng.stats)
	w.qc = map[string]qres{}
}

func (w *worker) runItem(it *workItem) {
	j := w.job
	if w.f == nil || w.f.nextID > 1500000 {
		w.reset()
	}
	r := &Run{eng: j.eng, job: j, w: w, f: w.f, item: it,
		pcset: map[*Term]bool{}, byVar: map[int32][]int{}, known: map[*Term]*Term{}, knownV: map[int32]bool{},
		globals: map[*ssa.Global]*Value{}, inited: map[*ssa.Package]bool{}, names: map[string]int{},
		locks: map[*Value]*lockState{}, side: map[any]any{}, doneCh: make(chan struct{}), reached: map[string]bool{},
		maxSteps: 40_000_000, maxTimerFires: 200, now: 1_700_000_000_000_000_000}
	if j.maxSteps > 0 {
		r.maxSteps = j.maxSteps
	}
	r.model = map[string]uint64{}
	for k, v := range it.base {
		r.model[k] = v
	}
	for k, v := range it.delta {
		r.model[k] = v
	}
	r.npre = len(it.prefix)
	if it.last != nil {
		r.npre++
	}
	r.f.SetModel(r.model)
	main := r.newThread("main")
	r.cur = main
	r.raceCheck = true
	r.live.Add(1)
	go func() {
		defer r.live.Done()
		<-main.wake
		main.body(func() {
			r.initRepo(main)
			main.callFn(nil, j.eng.cfuncOf(j.fn), nil, nil, 0)
			panic(&pathStop{"end", ""})
		})
	}()
	main.wake <- struct{}{}
	<-r.doneCh
	for _, t := range r.threads {
		select {
		case t.wake <- struct{}{}:
		default:
		}
	}
	r.live.Wait()

	j.eng.stats.Paths.Add(1)
	j.eng.stats.Steps.Add(r.steps)
	j.mu.Lock()
	defer j.mu.Unlock()
	j.Paths++
	j.Branches += r.nbranch
	j.Asserts += r.nassert
	j.Steps += r.steps
	if len(r.decs) > j.MaxDepth {
		j.MaxDepth = len(r.decs)
	}
	if len(r.choices) > 0 {
		j.SchedPaths++
	}
	for k := range r.reached {
		j.Reached[k]++
	}
	switch r.stop.kind {
	case "end":
		j.Completed++
		if len(j.Samples) < 3 || (j.Completed%97 == 0 && len(j.Samples) < 6) {
			j.Samples = append(j.Samples, r.describeInputs())
		}
	case "infeasible":
		j.Infeasible++
	case "unsupported":
		j.Unsupported[r.stop.msg]++
	case "limit":
		j.Limits[r.stop.msg]++
	case "violation":
		v := r.viol
		key := v.Kind + "|" + v.Msg
		if !j.violKeys[key] {
			j.violKeys[key] = true
			j.Violations = append(j.Violations, v)
			if j.knownFn == nil || !j.knownFn(v) {
				j.nUnknownV++
			}
		}
		if j.nUnknownV >= max(1, j.maxViol) {
			j.stopped = true
		}
	case "error":
		j.Errors = append(j.Errors, r.stop.msg)
		if len(j.Errors) > 3 {
			j.stopped = true
		}
	}
}

func (r *Run) engineError(t *thread, e any) *pathStop {
	if ps, ok := e.(*pathStop); ok {
		return ps
	}
	return &pathStop{"error", fmt.Sprintf("engine error: %v\n  at %s\n%s", e, t.where(), debug.Stack())}
}

func (r *Run) uncaught(t *thread, tp *targetPanic) (ps *pathStop) {
	defer func() {
		if e := recover(); e != nil {
			ps = r.engineError(t, e)
		}
	}()
	msg := "panic: " + r.panicString(t, tp.v)
	r.viol = r.mkViolation("panic", msg, tp.where)
	return &pathStop{"violation", msg}
}

func (r *Run) panicString(t *thread, v Value) string {
	i := ifc(v)
	if i == nil {
		return "nil"
	}
	if i.rt == r.eng.rtErrString {
		s, _ := strConc(i.v)
		return "runtime error: " + s
	}
	if s, ok := strConc(i.v); ok && i.v.p != nil {
		return s
	}
	r.nosched++
	defer func() { r.nosched-- }()
	if types.Implements(i.rt.t, errorIface) {
		f := r.eng.method(i.rt, errorIface.Method(0))
		if f != nil {
			s, ok := strConc(t.callFn(nil, r.eng.cfuncOf(f), []Value{i.v}, nil, 0))
			if ok {
				return s
			}
		}
	}
	return i.rt.String()
}

var errorIface = types.Universe.Lookup("error").Type().Underlying().(*types.Interface)

func (r *Run) mkViolation(kind, msg, where string) *Violation {
	v := &Violation{Kind: kind, Msg: msg, Where: where, Inputs: r.describeInputs(), Choices: append([]Choice{}, r.choices...), Model: map[string]uint64{}, Notes: append([]string{}, r.notes...)}
	for k, x := range r.model {
		v.Model[k] = x
	}
	for _, d := range r.decs {
		x := d.val << 3
		x |= uint64(d.kind) << 1
		if d.taken {
			x |= 1
		}
		v.Decs = append(v.Decs, x)
	}
	for _, c := range r.choices {
		if c.Name == "sched" || c.Name == "timer" || c.Name == "select" || c.Name == "maporder" {
			v.Sched = true
		}
	}
	return v
}

func (r *Run) violate(kind, msg string) {
	t := r.cur
	r.viol = r.mkViolation(kind, msg, t.where())
	panic(&pathStop{"violation", msg})
}

func (t *thread) violation(kind, msg string) {
	r := t.run
	r.viol = r.mkViolation(kind, msg, t.where())
	panic(&pathStop{"violation", msg})
}

func (r *Run) stepLimit(fr *frame) {
	if r.stepViolation && r.inInit == 0 {
		fr.t.violation("nontermination", fmt.Sprintf("no termination within %d steps", r.maxSteps))
	}
	panic(&pathStop{"limit", "steps in " + fr.t.where()})
}

func (r *Run) describeInputs() map[string]any {
	m := map[string]any{}
	for _, in := range r.inputs {
		switch in.kind {
		case "bytes", "str":
			s := ""
			for _, t := range in.ts {
				s += fmt.Sprintf("%02x", r.f.Eval(t))
			}
			m[in.name] = "hex:" + s
		case "choice":
			m[in.name] = in.n
		case "bool":
			m[in.name] = r.f.Eval(in.ts[0]) != 0
		default:
			m[in.name] = fmt.Sprintf("%d", r.f.Eval(in.ts[0]))
		}
	}
	return m
}

// ---- path constraints ----

func (r *Run) addConstraint(c *Term) {
	if c.isC() || r.pcset[c] {
		return
	}
	if c.op == OBAnd {
		for _, a := range c.args {
			r.addConstraint(a)
		}
		return
	}
	r.pcset[c] = true
	i := len(r.pc)
	r.pc = append(r.pc, c)
	for _, v := range r.f.Vars(c) {
		r.byVar[v] = append(r.byVar[v], i)
	}
	switch {
	case c.op == OEq && c.args[1].isC():
		r.learn(c.args[0], c.args[1])
	case c.op == OEq && c.args[0].isC():
		r.learn(c.args[1], c.args[0])
	case c.op == OBNot:
		r.learn(c.args[0], r.f.False)
		return
	}
	r.learn(c, r.f.True)
}

func (r *Run) learn(t, v *Term) {
	if t.isC() {
		return
	}
	r.known[t] = v
	for _, x := range r.f.Vars(t) {
		r.knownV[x] = true
	}
	r.memo = nil
}

func (r *Run) knownConst(t *Term) (uint64, bool) {
	s := r.subst(t)
	if s.isC() {
		return s.k, true
	}
	return 0, false
}

// subst rewrites t under the equalities learnt on this path.
func (r *Run) subst(t *Term) *Term {
	if len(r.known) == 0 || t.isC() || t.size > 4000 {
		return t
	}
	hit := false
	for _, v := range r.f.Vars(t) {
		if r.knownV[v] {
			hit = true
			break
		}
	}
	if !hit {
		return t
	}
	if r.memo == nil {
		r.memo = map[*Term]*Term{}
	}
	return r.subst1(t)
}

func (r *Run) subst1(t *Term) *Term {
	if k, ok := r.known[t]; ok {
		return k
	}
	if len(t.args) == 0 {
		return t
	}
	if m, ok := r.memo[t]; ok {
		return m
	}
	changed := false
	args := make([]*Term, len(t.args))
	for i, a := range t.args {
		args[i] = r.subst1(a)
		if args[i] != a {
			changed = true
		}
	}
	res := t
	if changed {
		res = r.f.rebuild(t, args)
		if k, ok := r.known[res]; ok {
			res = k
		}
	}
	r.memo[t] = res
	return res
}

func (f *Factory) rebuild(t *Term, a []*Term) *Term {
	switch t.op {
	case OAdd:
		return f.Add(a[0], a[1])
	case OSub:
		return f.Sub(a[0], a[1])
	case OMul:
		return f.Mul(a[0], a[1])
	case OUDiv:
		return f.UDiv(a[0], a[1])
	case OURem:
		return f.URem(a[0], a[1])
	case OSDiv:
		return f.SDiv(a[0], a[1])
	case OSRem:
		return f.SRem(a[0], a[1])
	case OAnd, OOr, OXor:
		return f.bitop(t.op, a[0], a[1])
	case ONot:
		return f.Not(a[0])
	case OShl:
		return f.Shl(a[0], a[1])
	case OLshr:
		return f.Lshr(a[0], a[1])
	case OAshr:
		return f.Ashr(a[0], a[1])
	case OConcat:
		return f.Concat(a...)
	case OExtract:
		return f.Extract(a[0], int(t.k), t.w)
	case OSExt:
		return f.SExt(a[0], t.w)
	case OIte:
		return f.Ite(a[0], a[1], a[2])
	case OTable:
		return f.Table(t.tab, a[0], t.w)
	case OLin:
		out := linTerm{m: map[*Term][]uint64{}, k: t.k}
		for i := range a {
			in := f.linOf(a[i])
			ap := func(v uint64) uint64 {
				x := uint64(0)
				for j, c := range t.cols[i] {
					if v>>uint(j)&1 != 0 {
						x ^= c
					}
				}
				return x
			}
			out.k ^= ap(in.k)
			for b, c := range in.m {
				o := out.col(b)
				for j, v := range c {
					o[j] ^= ap(v)
				}
			}
		}
		return f.linMk(out, t.w)
	case OUF:
		return f.UF(t.name, t.w, a...)
	case OF32to64:
		return f.F32to64(a[0])
	case OF64to32:
		return f.F64to32(a[0])
	case OEq:
		return f.Eq(a[0], a[1])
	case OUlt:
		return f.Ult(a[0], a[1])
	case OSlt:
		return f.Slt(a[0], a[1])
	case OBNot:
		return f.BNot(a[0])
	case OBAnd:
		return f.BAnd(a...)
	case OBOr:
		return f.BOr(a...)
	}
	panic("rebuild")
}

// slicePC returns the constraints connected to c through shared variables.
func (r *Run) slicePC(c *Term) []*Term {
	seenV := map[int32]bool{}
	seenC := map[int]bool{}
	var stack []int32
	for _, v := range r.f.Vars(c) {
		seenV[v] = true
		stack = append(stack, v)
	}
	var idx []int
	for len(stack) > 0 {
		v := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		for _, ci := range r.byVar[v] {
			if seenC[ci] {
				continue
			}
			seenC[ci] = true
			idx = append(idx, ci)
			for _, u := range r.f.Vars(r.pc[ci]) {
				if !seenV[u] {
					seenV[u] = true
					stack = append(stack, u)
				}
			}
		}
	}
	sort.Ints(idx)
	out := make([]*Term, 0, len(idx)+1)
	for _, i := range idx {
		out = append(out, r.pc[i])
	}
	return append(out, c)
}

// query decides PC && c. The model covers the slice's variables.
func (r *Run) query(c *Term) (Result, map[string]uint64) {
	if c.isC() {
		if c.k != 0 {
			return Sat, nil
		}
		return Unsat, nil
	}
	if r.pcset[c] {
		return Sat, nil
	}
	if r.pcset[r.f.BNot(c)] {
		return Unsat, nil
	}
	cs := r.slicePC(c)
	ids := make([]int, len(cs))
	for i, x := range cs {
		ids[i] = x.id
	}
	sort.Ints(ids)
	kb := make([]byte, 0, len(ids)*3)
	for _, id := range ids {
		kb = binary.AppendUvarint(kb, uint64(id))
	}
	if q, ok := r.w.qc[string(kb)]; ok {
		r.eng.stats.CacheHits.Add(1)
		return q.r, q.m
	}
	res, m := r.w.s.Check(cs)
	if res == Sat {
		// validate the model on the slice: never trust an unchecked model
		r.checkModel(cs, m)
	}
	if res != Unknown {
		r.w.qc[string(kb)] = qres{res, m}
	}
	return res, m
}

func (r *Run) checkModel(cs []*Term, m map[string]uint64) {
	f := r.f
	old := f.model
	f.SetModel(m)
	for _, c := range cs {
		if f.Eval(c) == 0 {
			f.SetModel(old)
			fmt.Fprintf(os.Stderr, "model mismatch on %v\nmodel %v\n", c, m)
			panic("solver model does not satisfy the query (translation error)")
		}
	}
	f.SetModel(old)
}

func (r *Run) pushAlt(d dec, m map[string]uint64) {
	r.job.push(&workItem{prefix: r.decs[:len(r.decs):len(r.decs)], last: &d, base: r.model, delta: m})
}

func (r *Run) nextPre() *dec {
	if r.pos >= r.npre {
		return nil
	}
	p := r.pos
	r.pos++
	if p < len(r.item.prefix) {
		return &r.item.prefix[p]
	}
	return r.item.last
}

func (r *Run) branch(t *thread, c *Term) bool {
	if c.isC() {
		return c.k != 0
	}
	c = r.subst(c)
	if c.isC() {
		return c.k != 0
	}
	r.nbranch++
	if d := r.nextPre(); d != nil {
		v := r.f.Eval(c) != 0
		if d.kind != 0 || d.taken != v {
			panic(fmt.Sprintf("divergence at decision %d: %v want kind %d taken %v", r.pos-1, c, d.kind, d.taken))
		}
		r.decs = append(r.decs, *d)
		if v {
			r.addConstraint(c)
		} else {
			r.addConstraint(r.f.BNot(c))
		}
		return v
	}
	v := r.f.Eval(c) != 0
	if !r.job.onlySingle {
		other := c
		if v {
			other = r.f.BNot(c)
		}
		res, m := r.query(other)
		switch res {
		case Sat:
			r.noteFork(t)
			r.pushAlt(dec{0, !v, 0}, m)
		case Unknown:
			r.unknown()
			if sweepDebug && r.cur != nil {
				s := other.String()
				fmt.Fprintf(os.Stderr, "unknown branch at %s: %s\n", r.cur.where(), s[:min(len(s), 600)])
			}
		}
	}
	r.decs = append(r.decs, dec{0, v, 0})
	if v {
		r.addConstraint(c)
	} else {
		r.addConstraint(r.f.BNot(c))
	}
	return v
}

var forkDebug = os.Getenv("GOSYM_FORKS") != ""
var forkMu sync.Mutex
var forks = map[string]int{}

// noteFork counts, if asked to, where paths fork on data.
func (r *Run) noteFork(t *thread) {
	if forkDebug && t != nil {
		forkMu.Lock()
		forks[t.where()]++
		forkMu.Unlock()
	}
}

func (r *Run) unknown() {
	r.job.mu.Lock()
	r.job.Unknown++
	r.job.mu.Unlock()
}

// concretise forks over the feasible values of x.
func (r *Run) concretise(t *thread, x *Term) uint64 {
	x = r.subst(x)
	if x.isC() {
		return x.k
	}
	n := 0
	for {
		n++
		if n > 5000 {
			panic(&pathStop{"limit", "concretisation fan-out at " + t.where()})
		}
		r.nbranch++
		if d := r.nextPre(); d != nil {
			if d.kind != 1 {
				panic("divergence at concretisation")
			}
			r.decs = append(r.decs, *d)
			e := r.f.Eq(x, r.f.Const(x.w, d.val))
			if d.taken {
				if r.f.Eval(e) == 0 {
					panic("divergence at concretisation value")
				}
				r.addConstraint(e)
				return d.val
			}
			r.addConstraint(r.f.BNot(e))
			continue
		}
		v := r.f.Eval(x)
		e := r.f.Eq(x, r.f.Const(x.w, v))
		if !e.isC() && !r.job.onlySingle {
			res, m := r.query(r.f.BNot(e))
			switch res {
			case Sat:
				r.pushAlt(dec{1, false, v}, m)
			case Unknown:
				r.unknown()
			}
		}
		r.decs = append(r.decs, dec{1, true, v})
		r.addConstraint(e)
		return v
	}
}

// choose makes an n-way nondeterministic choice. Each choice is a fresh
// variable over 0..n-1 on which nothing else depends, so every value is
// feasible without a query.
func (r *Run) choose(t *thread, name string, n int) int {
	if n <= 1 {
		return 0
	}
	if d := r.nextPre(); d != nil {
		if d.kind != 2 {
			panic("divergence at choice " + name)
		}
		r.decs = append(r.decs, *d)
		r.choices = append(r.choices, Choice{name, int(d.val)})
		return int(d.val)
	}
	for i := n - 1; i >= 1; i-- {
		r.pushAlt(dec{2, true, uint64(i)}, nil)
	}
	r.decs = append(r.decs, dec{2, true, 0})
	r.choices = append(r.choices, Choice{name, 0})
	return 0
}

func (r *Run) assume(t *thread, c *Term) {
	c = r.subst(c)
	if c.isC() {
		if c.k == 0 {
			panic(&pathStop{"infeasible", ""})
		}
		return
	}
	if r.f.Eval(c) == 0 {
		res, m := r.query(c)
		switch res {
		case Unsat:
			panic(&pathStop{"infeasible", ""})
		case Unknown:
			r.unknown()
			panic(&pathStop{"limit", "solver unknown in assume"})
		}
		nm := make(map[string]uint64, len(r.model)+len(m))
		for k, v := range r.model {
			nm[k] = v
		}
		for k, v := range m {
			nm[k] = v
		}
		r.model = nm
		r.f.SetModel(nm)
		if r.f.Eval(c) == 0 {
			panic("assume: model does not satisfy the assumption")
		}
	}
	r.addConstraint(c)
}

// assert checks that c holds for every value on this path.
func (r *Run) assert(t *thread, c *Term, msg string) {
	r.nassert++
	c = r.subst(c)
	if c.isC() {
		if c.k == 0 {
			t.violation("assert", msg)
		}
		return
	}
	if r.f.Eval(c) == 0 {
		t.violation("assert", msg)
	}
	if r.pos >= r.npre && !r.job.onlySingle {
		res, m := r.query(r.f.BNot(c))
		switch res {
		case Sat:
			r.mergeModel(m)
			t.violation("assert", msg)
		case Unknown:
			r.unknown()
		}
	}
	r.addConstraint(c)
}

func (r *Run) mergeModel(m map[string]uint64) {
	nm := make(map[string]uint64, len(r.model)+len(m))
	for k, v := range r.model {
		nm[k] = v
	}
	for k, v := range m {
		nm[k] = v
	}
	r.model = nm
	r.f.SetModel(nm)
}

// likely moves the path's model to one in which c holds, if there is one. It
// neither forks nor constrains the path: for use just before a violation.
func (r *Run) likely(c *Term) bool {
	c = r.subst(c)
	if c.isC() {
		return c.k != 0
	}
	if r.job.onlySingle || r.pos < r.npre {
		return false
	}
	res, m := r.query(c)
	if res == Sat {
		r.mergeModel(m)
	}
	return res == Sat
}

// ---- globals and package initialisation ----

func (r *Run) global(t *thread, g *ssa.Global) *Value {
	if v, ok := r.globals[g]; ok {
		return v
	}
	if g.Pkg != nil && !r.inited[g.Pkg] {
		r.initPkg(t, g.Pkg)
		if v, ok := r.globals[g]; ok {
			return v
		}
	}
	et := g.Type().Underlying().(*types.Pointer).Elem()
	v := zero(ti(et))
	p := &v
	r.globals[g] = p
	if g.Pkg != nil && noInit[g.Pkg.Pkg.Path()] && types.IsInterface(et) {
		if x, ok := r.initOne(t, g); ok {
			*p = x
		}
	}
	return p
}

// initOne evaluates the initialiser of one interface variable (the errors a
// package declares) of a package that is not initialised as a whole.
func (r *Run) initOne(t *thread, g *ssa.Global) (Value, bool) {
	g.Pkg.Build()
	fn := g.Pkg.Func("init")
	if fn == nil {
		return Value{}, false
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if st, ok := in.(*ssa.Store); ok && st.Addr == g {
				r.nosched++
				r.inInit++
				v, ok := r.initExpr(t, st.Val)
				r.inInit--
				r.nosched--
				return v, ok
			}
		}
	}
	return Value{}, false
}

func (r *Run) initExpr(t *thread, v ssa.Value) (Value, bool) {
	switch x := v.(type) {
	case *ssa.Const:
		return constValue(x), true
	case *ssa.UnOp:
		if g, ok := x.X.(*ssa.Global); ok && x.Op == token.MUL {
			if b, ok := g.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct); ok && b.NumFields() > 0 {
				return Value{}, false
			}
			return *r.global(t, g), true
		}
	case *ssa.MakeInterface:
		a, ok := r.initExpr(t, x.X)
		return mkIface(rtOf(x.X.Type()), a), ok
	case *ssa.ChangeInterface:
		return r.initExpr(t, x.X)
	case *ssa.Alloc:
		e := x.Type().Underlying().(*types.Pointer).Elem()
		if s, ok := e.Underlying().(*types.Struct); ok && s.NumFields() == 0 {
			z := zero(ti(e))
			return Value{p: &z}, true
		}
	case *ssa.Call:
		if fn, ok := x.Call.Value.(*ssa.Function); ok && fn.String() == "errors.New" {
			a, ok := r.initExpr(t, x.Call.Args[0])
			if !ok {
				return a, false
			}
			return t.callFn(t.top, r.eng.cfuncOf(fn), []Value{a}, nil, 0), true
		}
	}
	return Value{}, false
}

var noInit = map[string]bool{"runtime": true, "os": true, "syscall": true, "net": true, "internal/poll": true, "internal/godebug": true, "internal/cpu": true, "reflect": true, "time": true, "log": true, "internal/reflectlite": true, "sync": true, "internal/sync": true, "internal/bytealg": true, "internal/oserror": false, "context": false}

func (r *Run) initPkg(t *thread, p *ssa.Package) {
	if r.inited[p] {
		return
	}
	r.inited[p] = true
	if noInit[p.Pkg.Path()] {
		return
	}
	p.Build()
	fn := p.Func("init")
	if fn == nil {
		return
	}
	cf := r.eng.cfuncOf(fn)
	r.eng.prepare(cf)
	saved := r.steps
	r.nosched++
	r.inInit++
	top := t.top
	t.execFn(nil, cf, nil, nil)
	t.top = top
	r.inInit--
	r.nosched--
	r.steps = saved
}

// initRepo initialises the repository's packages in dependency order.
func (r *Run) initRepo(t *thread) {
	for _, lp := range r.eng.prog.order {
		if isRepoPath(lp.ImportPath) || strings.HasPrefix(lp.ImportPath, "github.com/sigurn") {
			if p := r.eng.prog.pkgs[lp.ImportPath]; p != nil {
				r.initPkg(t, p)
			}
		}
	}
}

var _ = atomic.Int64{}
