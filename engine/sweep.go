package main

import (
	"fmt"
	"math/rand"
	"os"
	"sort"
	"time"
)

var sweepDebug = os.Getenv("SWEEP_DEBUG") != ""

// sweep simplifies a hard query by SAT sweeping: nodes that agree on many
// assignments are proved equal by small queries, bottom up, and merged. The
// merges hold under the small constraints of the query ("assumptions"), which
// stay in the query unchanged, so the result is equivalent to cs.
func (s *Solver) sweep(cs []*Term) ([]*Term, bool) {
	f := s.f
	t0 := time.Now()
	deadline := time.Now().Add(time.Duration(s.slowMs) * time.Millisecond / 2)
	size := func(t *Term) int {
		seen := map[*Term]bool{}
		var rec func(t *Term)
		rec = func(t *Term) {
			if seen[t] || len(seen) > 300 {
				return
			}
			seen[t] = true
			for _, a := range t.args {
				rec(a)
			}
		}
		rec(t)
		return len(seen)
	}
	var assume, big []*Term
	for _, c := range cs {
		if size(c) < 80 {
			assume = append(assume, c)
		} else {
			big = append(big, c)
		}
	}
	if len(big) == 0 {
		return cs, false
	}
	hash := false
	fmt.Fprintf(&s.buf, "(set-option :timeout %d)\n", 500)
	defer func() { fmt.Fprintf(&s.buf, "(set-option :timeout %d)\n", s.tmoMs) }()
	// topological order
	var order []*Term
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.args {
			rec(a)
		}
		order = append(order, t)
		hash = hash || t.op == OTable || t.op == OLin
	}
	for _, c := range big {
		rec(c)
	}
	if !hash {
		return cs, false // merging pays for hashes
	}
	// order has arguments first; cheap nodes of both sides come early when
	// sorted by depth
	depth := map[*Term]int{}
	for _, t := range order {
		d := 0
		for _, a := range t.args {
			if depth[a] > d {
				d = depth[a]
			}
		}
		depth[t] = d + 1
	}
	sort.SliceStable(order, func(i, j int) bool { return depth[order[i]] < depth[order[j]] })
	vars, ufs := collectLeaves(f, cs)
	if len(ufs) > 0 {
		return cs, false
	}
	old := f.model
	defer f.SetModel(old)

	// sample assignments that satisfy the assumptions
	base := map[string]uint64{}
	if len(assume) > 0 {
		r, m := s.raw(assume)
		if r == Unsat {
			return []*Term{f.False}, true
		}
		if r != Sat {
			return cs, false
		}
		base = m
	}
	rng := rand.New(rand.NewSource(1))
	const K = 24
	var samples []map[string]uint64
	cur := base
	for try := 0; try < 4000 && len(samples) < K; try++ {
		nm := make(map[string]uint64, len(cur))
		for k, v := range cur {
			nm[k] = v
		}
		for k := 1 + rng.Intn(2); k > 0 && len(vars) > 0; k-- {
			v := vars[rng.Intn(len(vars))]
			x := rng.Uint64()
			switch rng.Intn(3) {
			case 0:
				x = nm[v.name] ^ 1<<uint(rng.Intn(v.w+1))
			case 1:
				x = uint64(rng.Intn(256))
			}
			if v.w == 0 {
				x &= 1
			} else {
				x &= mask(v.w)
			}
			nm[v.name] = x
		}
		f.SetModel(nm)
		ok := true
		for _, a := range assume {
			if f.Eval(a) == 0 {
				ok = false
				break
			}
		}
		if !ok {
			continue
		}
		cur = nm
		if try%8 == 0 || rng.Intn(6) == 0 {
			samples = append(samples, nm)
		}
	}
	samples = append(samples, base)
	sig := map[*Term][]uint64{}
	for _, m := range samples {
		f.SetModel(m)
		for _, t := range order {
			sig[t] = append(sig[t], f.Eval(t))
		}
	}
	key := func(t *Term, g []uint64) string { return fmt.Sprint(t.w, g) }
	reps := map[string][]*Term{}
	repl := map[*Term]*Term{}
	merged, tried := 0, 0
	prove := func(a, b *Term) bool {
		ne := f.BNot(f.Eq(a, b))
		if a.w == 0 {
			ne = f.BOr(f.BAnd(a, f.BNot(b)), f.BAnd(f.BNot(a), b))
		}
		if ne.isC() {
			return ne.k == 0
		}
		tried++
		q := append(append([]*Term(nil), assume...), ne)
		r, m := s.raw(q)
		if r == Sat {
			samples = append(samples, m)
		}
		return r == Unsat
	}
	for _, t := range order {
		if time.Now().After(deadline) {
			break
		}
		n := t
		if len(t.args) > 0 {
			args := make([]*Term, len(t.args))
			ch := false
			for i, a := range t.args {
				args[i] = a
				if x, ok := repl[a]; ok {
					args[i] = x
				}
				ch = ch || args[i] != a
			}
			if ch {
				n = f.rebuild(t, args)
			}
		}
		if n.op != OConst {
			g := sig[t]
			cands := reps[key(t, g)]
			same := true
			for _, v := range g {
				same = same && v == g[0]
			}
			done := false
			if same {
				c := f.Const(t.w, g[0])
				if len(t.args) > 0 && prove(n, c) {
					n, done = c, true
				}
			}
			for i := 0; !done && i < len(cands) && i < 3; i++ {
				if cands[i] == n {
					done = true
				} else if prove(n, cands[i]) {
					n, done = cands[i], true
				}
			}
			if done {
				merged++
			} else {
				reps[key(t, g)] = append(cands, n)
			}
		}
		if n != t {
			repl[t] = n
		}
	}
	if len(repl) == 0 {
		return cs, false
	}
	out := append([]*Term(nil), assume...)
	for _, c := range big {
		n, ok := repl[c]
		if !ok {
			// not reached before the deadline: rebuild from its arguments
			n = sweepRebuild(f, c, repl, map[*Term]*Term{})
		}
		out = append(out, n)
	}
	s.stats.Sweeps.Add(1)
	if sweepDebug {
		fmt.Fprintf(os.Stderr, "sweep: %d assumptions %d big, %d nodes, %d tried %d merged, %d samples, %v\n", len(assume), len(big), len(order), tried, merged, len(samples), time.Since(t0))
	}
	return out, true
}

func sweepRebuild(f *Factory, t *Term, repl, memo map[*Term]*Term) *Term {
	if x, ok := repl[t]; ok {
		return x
	}
	if len(t.args) == 0 {
		return t
	}
	if m, ok := memo[t]; ok {
		return m
	}
	args := make([]*Term, len(t.args))
	ch := false
	for i, a := range t.args {
		args[i] = sweepRebuild(f, a, repl, memo)
		ch = ch || args[i] != a
	}
	n := t
	if ch {
		n = f.rebuild(t, args)
	}
	memo[t] = n
	return n
}
