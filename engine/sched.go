package main

import (
	"fmt"
	"sort"
)

type thread struct {
	run    *Run
	id     int
	name   string
	stack  []Value
	spare  []Value
	sp     int
	top    *frame
	wake   chan struct{}
	ready  func() bool // nil: runnable
	quiet  bool        // waiting for quiescence
	dead   bool
	what   string // what it is blocked on
	vc     vclock
	opaque int
}

type selCase struct {
	ch   *chanV
	send bool
	val  Value
}

type waiter struct {
	t    *thread
	sel  *selState
	idx  int
	val  Value
	send bool
}

type selState struct {
	done bool
	idx  int
	val  Value
	ok   bool
}

type chanV struct {
	cap    int
	buf    []Value
	closed bool
	sendq  []*waiter
	recvq  []*waiter
	id     int64
}

func newChan(n int) *chanV { return &chanV{cap: n, id: uniq.Add(1)} }

type timer struct {
	when     int64
	seq      int
	fire     func(t *thread)
	active   bool
	inThread bool
	vc       vclock // of who set it
}

// ---- scheduler ----

func (r *Run) newThread(name string) *thread {
	t := &thread{run: r, id: len(r.threads), name: name, wake: make(chan struct{}, 1)}
	r.threads = append(r.threads, t)
	return t
}

// spawn starts a thread for a go statement.
func (t *thread) spawn(f func(fr *frame) func()) {
	fr := t.top
	call := f(fr)
	t.start("go "+fr.cf.name, call)
	t.point()
}

func (t *thread) start(name string, body func()) *thread {
	r := t.run
	n := r.newThread(name)
	if r.raceCheck {
		n.vc = append(vclock{}, t.vc...)
		n.tick()
		t.tick()
	}
	r.live.Add(1)
	go func() {
		defer r.live.Done()
		<-n.wake
		if r.dead {
			return
		}
		n.body(body)
	}()
	return n
}

// body runs a thread's function and then passes the baton on.
func (n *thread) body(body func()) {
	r := n.run
	var stop *pathStop
	func() {
		defer func() {
			e := recover()
			if e == nil {
				return
			}
			switch x := e.(type) {
			case *pathStop:
				stop = x
			case *targetPanic:
				stop = r.uncaught(n, x)
			default:
				stop = r.engineError(n, e)
			}
		}()
		body()
	}()
	if r.dead {
		return
	}
	n.dead = true
	n.top = nil
	if stop != nil {
		r.finish(stop)
		return
	}
	func() {
		defer func() {
			if e := recover(); e != nil {
				if ps, ok := e.(*pathStop); ok {
					r.finish(ps)
					return
				}
				r.finish(r.engineError(n, e))
			}
		}()
		nx := r.pick(n, true)
		if nx != nil && nx != n {
			r.cur = nx
			nx.wake <- struct{}{}
		}
	}()
}

func (r *Run) finish(s *pathStop) {
	if r.stop == nil {
		r.stop = s
	}
	r.dead = true
	close(r.doneCh)
}

// point is a scheduling point before a visible operation.
func (t *thread) point() {
	r := t.run
	if r.nosched > 0 || r.preempt <= 0 && r.timerRace <= 0 {
		return
	}
	if r.timerRace > 0 && len(r.timers) > 0 {
		if r.choose(t, "timer", 2) == 1 {
			r.timerRace--
			r.fireTimer(t)
			t.point()
			return
		}
	}
	if r.preempt <= 0 {
		return
	}
	var others []*thread
	for _, o := range r.threads {
		if o != t && !o.dead && !o.quiet && (o.ready == nil || o.ready()) {
			others = append(others, o)
		}
	}
	if len(others) == 0 {
		return
	}
	k := r.choose(t, "sched", len(others)+1)
	if k == 0 {
		return
	}
	r.preempt--
	t.switchTo(others[k-1])
}

func (t *thread) switchTo(n *thread) {
	r := t.run
	if n == t {
		return
	}
	r.switches++
	r.cur = n
	n.wake <- struct{}{}
	<-t.wake
	if r.dead {
		panic(&pathStop{"abort", ""})
	}
	r.cur = t
}

// block waits until ready() holds.
func (t *thread) block(what string, ready func() bool) {
	t.ready = ready
	t.what = what
	for {
		n := t.run.pick(t, false)
		if n == t {
			break
		}
		t.switchTo(n)
		if ready() {
			break
		}
	}
	t.ready = nil
	t.what = ""
}

// yield lets the others run (used at non-preemptive yields).
func (t *thread) yield() {
	t.point()
}

// pick selects the next thread; self may be returned if it is ready.
func (r *Run) pick(self *thread, exiting bool) *thread {
	for {
		var c []*thread
		n := len(r.threads)
		start := 0
		if self != nil {
			start = self.id + 1
		}
		for i := 0; i < n; i++ {
			o := r.threads[(start+i)%n]
			if o.dead || o.quiet {
				continue
			}
			if o.ready == nil {
				if o == self && !exiting {
					// a running thread only calls pick when blocked
					continue
				}
				c = append(c, o)
			} else if o.ready() {
				c = append(c, o)
			}
		}
		if len(c) > 0 {
			if len(c) == 1 || !r.allOrders {
				return c[0]
			}
			return c[r.choose(self, "sched", len(c))]
		}
		// idle
		for _, o := range r.threads {
			if o.quiet && !o.dead {
				o.quiet = false
				return o
			}
		}
		if r.fireTimer(self) {
			continue
		}
		r.deadlock(self)
	}
}

func (r *Run) deadlock(self *thread) {
	msg := "all goroutines are blocked:"
	for _, o := range r.threads {
		if !o.dead {
			msg += fmt.Sprintf(" [%d %s: %s at %s]", o.id, o.name, o.what, o.where())
		}
	}
	r.violate("deadlock", msg)
}

// fireTimer advances the virtual clock to the next active timer.
func (r *Run) fireTimer(self *thread) bool {
	if len(r.timers) == 0 {
		return false
	}
	sort.SliceStable(r.timers, func(i, j int) bool { return r.timers[i].when < r.timers[j].when })
	tm := r.timers[0]
	r.timers = r.timers[1:]
	if tm.when > r.now {
		r.now = tm.when
	}
	tm.active = false
	r.timerFires++
	if r.timerFires > r.maxTimerFires {
		panic(&pathStop{"limit", "timer firings"})
	}
	if r.raceCheck && self != nil {
		// what it does is ordered after its setting only
		vc, cur := self.vc, r.cur
		self.vc, r.cur = append(vclock{}, tm.vc...), self
		tm.fire(self)
		self.vc, r.cur = vc, cur
		return true
	}
	tm.fire(self)
	return true
}

func (r *Run) addTimer(d int64, fire func(t *thread)) *timer {
	if d < 0 {
		d = 0
	}
	r.timerSeq++
	tm := &timer{when: r.now + d, seq: r.timerSeq, fire: fire, active: true}
	if t := r.cur; r.raceCheck && t != nil {
		tm.vc = t.vc
		t.vc = append(vclock{}, t.vc...)
		t.tick()
	}
	r.timers = append(r.timers, tm)
	return tm
}

func (r *Run) stopTimer(tm *timer) bool {
	if tm == nil || !tm.active {
		return false
	}
	tm.active = false
	for i, x := range r.timers {
		if x == tm {
			r.timers = append(append([]*timer{}, r.timers[:i]...), r.timers[i+1:]...)
			break
		}
	}
	return true
}

// ---- channels ----

func (t *thread) chanSend(cv, v Value) {
	t.point()
	if cv.p == nil {
		t.block("send on nil channel", func() bool { return false })
	}
	c := cv.p.(*chanV)
	t.acquire(c)
	t.release(c)
	if t.trySend(c, v) {
		return
	}
	st := &selState{}
	c.sendq = append(c.sendq, &waiter{t: t, sel: st, val: v, send: true})
	t.block("channel send", func() bool { return st.done })
	t.acquire(c)
	if !st.ok {
		t.throw(mkIface(t.run.eng.rtPlainErr, goStr("send on closed channel")))
	}
}

func (t *thread) trySend(c *chanV, v Value) bool {
	if c.closed {
		t.throw(mkIface(t.run.eng.rtPlainErr, goStr("send on closed channel")))
	}
	if w := popW(&c.recvq); w != nil {
		w.sel.done, w.sel.idx, w.sel.val, w.sel.ok = true, w.idx, v, true
		return true
	}
	if len(c.buf) < c.cap {
		c.buf = append(c.buf, v)
		return true
	}
	return false
}

func popW(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if !w.sel.done {
			return w
		}
	}
	return nil
}

func (t *thread) tryRecv(c *chanV) (Value, bool, bool) {
	if len(c.buf) > 0 {
		v := c.buf[0]
		c.buf = append([]Value{}, c.buf[1:]...)
		if w := popW(&c.sendq); w != nil {
			c.buf = append(c.buf, w.val)
			w.sel.done, w.sel.idx, w.sel.ok = true, w.idx, true
		}
		return v, true, true
	}
	if w := popW(&c.sendq); w != nil {
		w.sel.done, w.sel.idx, w.sel.ok = true, w.idx, true
		return w.val, true, true
	}
	if c.closed {
		return Value{}, false, true
	}
	return Value{}, false, false
}

func (t *thread) chanRecv(cv Value) (Value, bool) {
	t.point()
	if cv.p == nil {
		t.block("receive from nil channel", func() bool { return false })
	}
	c := cv.p.(*chanV)
	t.release(c)
	defer t.acquire(c)
	if v, ok, got := t.tryRecv(c); got {
		return v, ok
	}
	st := &selState{}
	c.recvq = append(c.recvq, &waiter{t: t, sel: st})
	t.block("channel receive", func() bool { return st.done })
	return st.val, st.ok
}

func (t *thread) chanClose(cv Value) {
	t.point()
	if cv.p == nil {
		t.throw(mkIface(t.run.eng.rtPlainErr, goStr("close of nil channel")))
	}
	c := cv.p.(*chanV)
	t.release(c)
	if c.closed {
		t.throw(mkIface(t.run.eng.rtPlainErr, goStr("close of closed channel")))
	}
	c.closed = true
	for {
		w := popW(&c.recvq)
		if w == nil {
			break
		}
		w.sel.done, w.sel.idx, w.sel.ok = true, w.idx, false
	}
	for {
		w := popW(&c.sendq)
		if w == nil {
			break
		}
		w.sel.done, w.sel.idx, w.sel.ok = true, w.idx, false
	}
}

func chanReady(c *chanV, send bool) bool {
	if c == nil {
		return false
	}
	live := func(q []*waiter) bool {
		for _, w := range q {
			if !w.sel.done {
				return true
			}
		}
		return false
	}
	if send {
		return c.closed || len(c.buf) < c.cap || live(c.recvq)
	}
	return len(c.buf) > 0 || c.closed || live(c.sendq)
}

func (t *thread) doSelect(cases []selCase, blocking bool) (got int, _ Value, _ bool) {
	got = -1
	t.point()
	if t.run.raceCheck {
		for _, c := range cases {
			if c.ch != nil && c.send {
				t.release(c.ch)
			}
		}
		defer func() {
			if got >= 0 {
				t.acquire(cases[got].ch)
				if !cases[got].send && !cases[got].ch.closed {
					t.release(cases[got].ch)
				}
			}
		}()
	}
	var ready []int
	for i, c := range cases {
		if chanReady(c.ch, c.send) {
			ready = append(ready, i)
		}
	}
	if len(ready) > 0 {
		i := ready[0]
		if len(ready) > 1 {
			i = ready[t.run.choose(t, "select", len(ready))]
		}
		c := cases[i]
		if c.send {
			t.trySend(c.ch, c.val)
			return i, Value{}, true
		}
		v, ok, _ := t.tryRecv(c.ch)
		return i, v, ok
	}
	if !blocking {
		return -1, Value{}, false
	}
	st := &selState{}
	for i, c := range cases {
		if c.ch == nil {
			continue
		}
		w := &waiter{t: t, sel: st, idx: i, val: c.val, send: c.send}
		if c.send {
			c.ch.sendq = append(c.ch.sendq, w)
		} else {
			c.ch.recvq = append(c.ch.recvq, w)
		}
	}
	t.block("select", func() bool { return st.done })
	if cases[st.idx].send && !st.ok {
		t.throw(mkIface(t.run.eng.rtPlainErr, goStr("send on closed channel")))
	}
	return st.idx, st.val, st.ok
}

// ---- locks ----

type lockState struct {
	w       bool
	readers int
	waitW   int
	owner   int
}

func (r *Run) lockOf(p *Value) *lockState {
	l := r.locks[p]
	if l == nil {
		l = &lockState{}
		r.locks[p] = l
	}
	return l
}

func ptrOf(t *thread, v Value) *Value {
	p, ok := v.p.(*Value)
	if !ok {
		if v.p == nil {
			t.nilDeref()
		}
		t.unsupported("lock through %T", v.p)
	}
	return p
}

func (t *thread) lock(p *Value) {
	t.point()
	l := t.run.lockOf(p)
	if l.w || l.readers > 0 {
		l.waitW++
		t.block("mutex lock", func() bool { return !l.w && l.readers == 0 })
		l.waitW--
	}
	l.w = true
	l.owner = t.id
	t.acquire(lockKey{p, false})
	t.acquire(lockKey{p, true})
}

type lockKey struct {
	p *Value
	r bool
}

func (t *thread) tryLock(p *Value) bool {
	t.point()
	l := t.run.lockOf(p)
	if l.w || l.readers > 0 {
		return false
	}
	l.w = true
	l.owner = t.id
	t.acquire(lockKey{p, false})
	t.acquire(lockKey{p, true})
	return true
}

func (t *thread) unlock(p *Value) {
	l := t.run.lockOf(p)
	if !l.w {
		t.violation("fatal", "fatal error: sync: unlock of unlocked mutex")
	}
	l.w = false
	t.release(lockKey{p, false})
	t.point()
}

func (t *thread) rlock(p *Value) {
	t.point()
	l := t.run.lockOf(p)
	if l.w || l.waitW > 0 {
		t.block("rwmutex rlock", func() bool { return !l.w && l.waitW == 0 })
	}
	l.readers++
	t.acquire(lockKey{p, false})
}

func (t *thread) runlock(p *Value) {
	l := t.run.lockOf(p)
	if l.readers <= 0 {
		t.violation("fatal", "fatal error: sync: RUnlock of unlocked RWMutex")
	}
	l.readers--
	t.release(lockKey{p, true})
	t.point()
}
