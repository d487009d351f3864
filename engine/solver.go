package main

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

// Result of a satisfiability query.
type Result int

const (
	Unsat Result = iota
	Sat
	Unknown
)

// Stats are global counters over all workers.
type Stats struct {
	Queries   atomic.Int64
	QSat      atomic.Int64
	QUnsat    atomic.Int64
	QUnknown  atomic.Int64
	CacheHits atomic.Int64
	Trivial   atomic.Int64
	Fallbacks atomic.Int64
	Sweeps    atomic.Int64
	SolverNs  atomic.Int64
	Paths     atomic.Int64
	Steps     atomic.Int64
	Branches  atomic.Int64
}

// Solver wraps one incremental z3 process tied to a factory.
type Solver struct {
	f      *Factory
	cmd    *exec.Cmd
	in     io.WriteCloser
	out    *bufio.Reader
	gen    int
	stats  *Stats
	decl   map[string]bool
	buf    bytes.Buffer
	tmoMs  int
	slowMs int
	broken bool
}

var solverBin = "z3-new"

func NewSolver(f *Factory, st *Stats) *Solver {
	s := &Solver{f: f, stats: st, tmoMs: 5000, slowMs: 60000}
	s.start()
	return s
}

var solverGen atomic.Int64

func (s *Solver) start() {
	s.cmd = exec.Command(solverBin, "-in", "-smt2")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = os.Stderr
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.in, s.out = in, bufio.NewReaderSize(out, 1<<16)
	s.gen = int(solverGen.Add(1))
	s.decl = map[string]bool{}
	s.buf.Reset()
	fmt.Fprintf(&s.buf, "(set-option :global-declarations true)\n(set-option :produce-models true)\n(set-option :timeout %d)\n", s.tmoMs)
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func sortName(w int) string {
	if w == 0 {
		return "Bool"
	}
	return "(_ BitVec " + strconv.Itoa(w) + ")"
}

func constStr(w int, k uint64) string {
	if w == 0 {
		if k != 0 {
			return "true"
		}
		return "false"
	}
	return fmt.Sprintf("(_ bv%d %d)", k, w)
}

type emitter struct {
	buf  *bytes.Buffer
	decl map[string]bool
	done func(t *Term) bool // returns true when already emitted, else marks
}

func (e *emitter) ref(t *Term) string {
	switch t.op {
	case OConst:
		return constStr(t.w, t.k)
	case OVar:
		return "|" + t.name + "|"
	}
	return "t" + strconv.Itoa(t.id)
}

// emit defines t and everything below it.
func (e *emitter) emit(t *Term) {
	if t.op == OConst {
		return
	}
	if e.done(t) {
		return
	}
	for _, a := range t.args {
		e.emit(a)
	}
	b := e.buf
	switch t.op {
	case OVar:
		fmt.Fprintf(b, "(declare-const |%s| %s)\n", t.name, sortName(t.w))
		return
	case OUF:
		key := fmt.Sprintf("uf!%s!%d", t.name, t.w)
		for _, a := range t.args {
			key += "." + strconv.Itoa(a.w)
		}
		if !e.decl[key] {
			e.decl[key] = true
			fmt.Fprintf(b, "(declare-fun |%s| (", key)
			for _, a := range t.args {
				b.WriteString(sortName(a.w) + " ")
			}
			fmt.Fprintf(b, ") %s)\n", sortName(t.w))
		}
		fmt.Fprintf(b, "(define-fun t%d () %s (|%s|", t.id, sortName(t.w), key)
		for _, a := range t.args {
			b.WriteByte(' ')
			b.WriteString(e.ref(a))
		}
		b.WriteString("))\n")
		return
	}
	fmt.Fprintf(b, "(define-fun t%d () %s ", t.id, sortName(t.w))
	switch t.op {
	case OExtract:
		fmt.Fprintf(b, "((_ extract %d %d) %s)", int(t.k)+t.w-1, t.k, e.ref(t.args[0]))
	case OSExt:
		fmt.Fprintf(b, "((_ sign_extend %d) %s)", t.w-t.args[0].w, e.ref(t.args[0]))
	case OTable:
		e.table(t)
	case OLin:
		n := 0
		b.WriteString("(bvxor " + constStr(t.w, t.k))
		for i, a := range t.args {
			for j, c := range t.cols[i] {
				if c == 0 {
					continue
				}
				fmt.Fprintf(b, " (ite (= ((_ extract %d %d) %s) #b1) %s %s)", j, j, e.ref(a), constStr(t.w, c), constStr(t.w, 0))
				n++
			}
		}
		if n == 0 {
			b.WriteString(" " + constStr(t.w, 0))
		}
		b.WriteString(")")
	case OF32to64:
		fmt.Fprintf(b, "((_ to_ieee_bv) ((_ to_fp 11 53) RNE ((_ to_fp 8 24) %s)))", e.ref(t.args[0]))
	case OF64to32:
		fmt.Fprintf(b, "((_ to_ieee_bv) ((_ to_fp 8 24) RNE ((_ to_fp 11 53) %s)))", e.ref(t.args[0]))
	default:
		b.WriteString("(" + opNames[t.op])
		for _, a := range t.args {
			b.WriteByte(' ')
			b.WriteString(e.ref(a))
		}
		b.WriteString(")")
	}
	b.WriteString(")\n")
}

func (e *emitter) table(t *Term) {
	idx := t.args[0]
	r := e.ref(idx)
	var rec func(bit int, base int)
	rec = func(bit, base int) {
		if base >= len(t.tab) {
			e.buf.WriteString(constStr(t.w, 0))
			return
		}
		if bit < 0 {
			e.buf.WriteString(constStr(t.w, t.tab[base]))
			return
		}
		// uniform range?
		end := base + 1<<uint(bit+1)
		if end <= len(t.tab) {
			same := true
			for i := base + 1; i < end; i++ {
				if t.tab[i] != t.tab[base] {
					same = false
					break
				}
			}
			if same {
				e.buf.WriteString(constStr(t.w, t.tab[base]))
				return
			}
		}
		fmt.Fprintf(e.buf, "(ite (= ((_ extract %d %d) %s) #b1) ", bit, bit, r)
		rec(bit-1, base+1<<uint(bit))
		e.buf.WriteByte(' ')
		rec(bit-1, base)
		e.buf.WriteByte(')')
	}
	n := idx.w
	for n > 0 && 1<<uint(n-1) >= len(t.tab) && n > 1 {
		n--
	}
	// bits above n are zero by construction (index < len)
	rec(min(n, idx.w-1), 0)
}

func (s *Solver) done(t *Term) bool {
	if t.emit == s.gen {
		return true
	}
	t.emit = s.gen
	return false
}

func needsFP(ts []*Term, seen map[*Term]bool) bool {
	for _, t := range ts {
		if seen[t] {
			continue
		}
		seen[t] = true
		if t.op == OF32to64 || t.op == OF64to32 || needsFP(t.args, seen) {
			return true
		}
	}
	return false
}

// Check decides the conjunction of cs; on Sat it returns values for every
// variable and UF application that occurs.
func (s *Solver) Check(cs []*Term) (Result, map[string]uint64) {
	t0 := time.Now()
	defer func() { s.stats.SolverNs.Add(int64(time.Since(t0))) }()
	s.stats.Queries.Add(1)
	// queries over hash chains get a short first try: sweeping decides most
	quick := len(cs) > 0 && hashDepth(cs[len(cs)-1]) > 24
	if quick {
		fmt.Fprintf(&s.buf, "(set-option :timeout 300)\n")
	}
	r, m := s.raw(cs)
	if quick {
		fmt.Fprintf(&s.buf, "(set-option :timeout %d)\n", s.tmoMs)
	}
	if r == Unknown && !needsFP(cs, map[*Term]bool{}) {
		if sw, ok := s.sweep(cs); ok {
			left := sw[:0:0]
			for _, c := range sw {
				if c.isC() {
					if c.k == 0 {
						r = Unsat
					}
					continue
				}
				left = append(left, c)
			}
			if r == Unknown {
				r, m = s.raw(left)
				if r == Unknown {
					return s.fallback(left)
				}
			}
		}
	}
	switch r {
	case Sat:
		s.stats.QSat.Add(1)
	case Unsat:
		s.stats.QUnsat.Add(1)
	default:
		return s.fallback(cs)
	}
	return r, m
}

// hashDepth counts table lookups and GF(2)-linear nodes, up to a limit.
func hashDepth(t *Term) int {
	n, all := 0, 0
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] || n > 30 || all > 3000 {
			return
		}
		seen[t] = true
		all++
		if t.op == OTable || t.op == OLin {
			n++
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	rec(t)
	return n
}

// raw asks the incremental solver only.
func (s *Solver) raw(cs []*Term) (Result, map[string]uint64) {
	if s.cmd == nil {
		s.start()
	}
	e := &emitter{buf: &s.buf, decl: s.decl, done: s.done}
	for _, c := range cs {
		e.emit(c)
	}
	s.buf.WriteString("(push 1)\n")
	for _, c := range cs {
		fmt.Fprintf(&s.buf, "(assert %s)\n", e.ref(c))
	}
	s.buf.WriteString("(check-sat)\n")
	if dumpQueries != nil {
		dumpQueries.Write(s.buf.Bytes())
	}
	if !s.flush() {
		return Unknown, nil
	}
	line, err := s.readLine()
	if err != nil {
		s.restart()
		return Unknown, nil
	}
	switch line {
	case "sat":
		m, ok := s.getModel(cs)
		s.buf.WriteString("(pop 1)\n")
		if !ok {
			s.restart()
			return Unknown, nil
		}
		return Sat, m
	case "unsat":
		s.buf.WriteString("(pop 1)\n")
		return Unsat, nil
	case "unknown", "timeout":
		s.buf.WriteString("(pop 1)\n")
		return Unknown, nil
	}
	fmt.Fprintf(os.Stderr, "solver said: %s\n", line)
	s.restart()
	return Unknown, nil
}

var dumpQueries io.Writer

func (s *Solver) restart() {
	s.Close()
	s.start()
}

func (s *Solver) flush() bool {
	_, err := s.in.Write(s.buf.Bytes())
	s.buf.Reset()
	if err != nil {
		s.restart()
		return false
	}
	return true
}

func (s *Solver) readLine() (string, error) {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l, nil
		}
	}
}

func collectLeaves(f *Factory, cs []*Term) (vars []*Term, ufs []*Term) {
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		switch t.op {
		case OVar:
			vars = append(vars, t)
		case OUF:
			ufs = append(ufs, t)
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	for _, c := range cs {
		rec(c)
	}
	return
}

func (s *Solver) getModel(cs []*Term) (map[string]uint64, bool) {
	vars, ufs := collectLeaves(s.f, cs)
	if len(vars) == 0 && len(ufs) == 0 {
		return map[string]uint64{}, true
	}
	e := &emitter{buf: &s.buf, decl: s.decl, done: s.done}
	s.buf.WriteString("(get-value (")
	for _, v := range vars {
		s.buf.WriteString(e.ref(v) + " ")
	}
	for _, u := range ufs {
		s.buf.WriteString(e.ref(u) + " ")
		for _, a := range u.args {
			e2 := e.ref(a)
			s.buf.WriteString(e2 + " ")
		}
	}
	s.buf.WriteString("))\n")
	if !s.flush() {
		return nil, false
	}
	txt, err := s.readSexp()
	if err != nil {
		return nil, false
	}
	vals := parseValues(txt)
	m := map[string]uint64{}
	i := 0
	for _, v := range vars {
		if i >= len(vals) {
			return nil, false
		}
		m[v.name] = vals[i]
		i++
	}
	for _, u := range ufs {
		if i+len(u.args) >= len(vals) {
			return nil, false
		}
		r := vals[i]
		i++
		av := make([]uint64, len(u.args))
		for j := range u.args {
			av[j] = vals[i]
			i++
		}
		m[ufKey(u.name, av)] = r
	}
	return m, true
}

func (s *Solver) readSexp() (string, error) {
	var sb strings.Builder
	depth := 0
	started := false
	inq := false
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			return "", err
		}
		if !started && c != '(' {
			continue
		}
		sb.WriteByte(c)
		if c == '|' {
			inq = !inq
		}
		if inq {
			continue
		}
		if c == '(' {
			depth++
			started = true
		} else if c == ')' {
			depth--
			if depth == 0 {
				return sb.String(), nil
			}
		}
	}
}

// parseValues extracts the second element of each pair in ((a v) (b v) ...).
func parseValues(txt string) []uint64 {
	var out []uint64
	i := 0
	n := len(txt)
	depth := 0
	start := -1
	for i < n {
		c := txt[i]
		switch c {
		case '|':
			i++
			for i < n && txt[i] != '|' {
				i++
			}
		case '(':
			depth++
			if depth == 2 {
				start = i
			}
		case ')':
			if depth == 2 {
				out = append(out, pairValue(txt[start+1:i]))
			}
			depth--
		}
		i++
	}
	return out
}

func pairValue(p string) uint64 {
	p = strings.TrimSpace(p)
	if strings.HasSuffix(p, ")") {
		// (_ bvN w) form
		j := strings.LastIndex(p, "(_ bv")
		if j >= 0 {
			fs := strings.Fields(p[j+5 : len(p)-1])
			v, _ := strconv.ParseUint(fs[0], 10, 64)
			return v
		}
		return 0
	}
	j := strings.LastIndexAny(p, " \n\t")
	v := p[j+1:]
	switch {
	case strings.HasPrefix(v, "#x"):
		x, _ := strconv.ParseUint(v[2:], 16, 64)
		return x
	case strings.HasPrefix(v, "#b"):
		x, _ := strconv.ParseUint(v[2:], 2, 64)
		return x
	case v == "true":
		return 1
	}
	return 0
}

// fallback runs a portfolio of one-shot solvers with a longer limit.
func (s *Solver) fallback(cs []*Term) (Result, map[string]uint64) {
	s.stats.Fallbacks.Add(1)
	var buf bytes.Buffer
	fp := needsFP(cs, map[*Term]bool{})
	buf.WriteString("(set-option :produce-models true)\n")
	_, ufs := collectLeaves(s.f, cs)
	logic := "QF_BV"
	if len(ufs) > 0 {
		logic = "QF_UFBV"
	}
	if fp {
		logic = "QF_BVFP"
		if len(ufs) > 0 {
			logic = "ALL"
		}
	}
	fmt.Fprintf(&buf, "(set-logic %s)\n", logic)
	seen := map[*Term]bool{}
	e := &emitter{buf: &buf, decl: map[string]bool{}, done: func(t *Term) bool {
		if seen[t] {
			return true
		}
		seen[t] = true
		return false
	}}
	for _, c := range cs {
		e.emit(c)
	}
	for _, c := range cs {
		fmt.Fprintf(&buf, "(assert %s)\n", e.ref(c))
	}
	buf.WriteString("(check-sat)\n")
	vars, _ := collectLeaves(s.f, cs)
	buf.WriteString("(get-value (")
	for _, v := range vars {
		buf.WriteString(e.ref(v) + " ")
	}
	for _, u := range ufs {
		buf.WriteString(e.ref(u) + " ")
		for _, a := range u.args {
			buf.WriteString(e.ref(a) + " ")
		}
	}
	buf.WriteString("))\n")
	type ans struct {
		r Result
		m map[string]uint64
	}
	ch := make(chan ans, 3)
	var cmds []*exec.Cmd
	run := func(name string, args ...string) {
		cmd := exec.Command(name, args...)
		cmd.Stdin = bytes.NewReader(buf.Bytes())
		cmds = append(cmds, cmd)
		go func() {
			out, _ := cmd.Output()
			txt := string(out)
			nl := strings.IndexByte(txt, '\n')
			if nl < 0 {
				ch <- ans{Unknown, nil}
				return
			}
			switch strings.TrimSpace(txt[:nl]) {
			case "unsat":
				ch <- ans{Unsat, nil}
			case "sat":
				vals := parseValues(txt[nl+1:])
				m := map[string]uint64{}
				i := 0
				for _, v := range vars {
					if i < len(vals) {
						m[v.name] = vals[i]
					}
					i++
				}
				for _, u := range ufs {
					if i+len(u.args) >= len(vals) {
						break
					}
					r := vals[i]
					i++
					av := make([]uint64, len(u.args))
					for j := range u.args {
						av[j] = vals[i]
						i++
					}
					m[ufKey(u.name, av)] = r
				}
				ch <- ans{Sat, m}
			default:
				ch <- ans{Unknown, nil}
			}
		}()
	}
	run("z3", "-in", "-smt2", fmt.Sprintf("-T:%d", s.slowMs/1000))
	run("cvc5", "--lang=smt2", "--produce-models", fmt.Sprintf("--tlimit=%d", s.slowMs))
	n := 2
	if len(ufs) == 0 && !fp {
		n++
		run("cvc5", "--lang=smt2", "--produce-models", "--solve-bv-as-int=sum", fmt.Sprintf("--tlimit=%d", s.slowMs))
	}
	res := ans{Unknown, nil}
	for i := 0; i < n; i++ {
		a := <-ch
		if a.r != Unknown {
			res = a
			break
		}
	}
	for _, c := range cmds {
		if c.Process != nil {
			c.Process.Kill()
		}
	}
	switch res.r {
	case Sat:
		s.stats.QSat.Add(1)
	case Unsat:
		s.stats.QUnsat.Add(1)
	default:
		s.stats.QUnknown.Add(1)
	}
	return res.r, res.m
}
