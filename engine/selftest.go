package main

import (
	"fmt"
	"math"
	"math/rand"
	"os"
)

// A random expression is built through the simplifying constructors and, in
// parallel, evaluated numerically for several assignments; then the solver is
// asked whether the term can differ from its value.

type sx struct {
	t *Term
	v []uint64
}

func runSelfTest() int {
	bad := 0
	st := &Stats{}
	nq, nt := 0, 0
	for seed := int64(1); seed <= 4000; seed++ {
		rng := rand.New(rand.NewSource(seed))
		f := NewFactory()
		const NM = 6
		models := make([]map[string]uint64, NM)
		for i := range models {
			models[i] = map[string]uint64{}
		}
		pool := map[int][]sx{}
		add := func(w int, s sx) {
			if s.t.w != w {
				fmt.Printf("seed %d width mismatch %v\n", seed, s.t)
				bad++
				return
			}
			for i, m := range models {
				f.SetModel(m)
				if g := f.Eval(s.t); g != s.v[i] {
					fmt.Printf("seed %d: %v evaluates to %x, want %x (model %v)\n", seed, s.t, g, s.v[i], m)
					bad++
					return
				}
			}
			nt++
			pool[w] = append(pool[w], s)
		}
		for i := 0; i < 4; i++ {
			w := []int{8, 8, 16, 32, 64}[rng.Intn(5)]
			n := fmt.Sprintf("v%d", i)
			s := sx{t: f.Var(n, w)}
			for _, m := range models {
				x := rng.Uint64() & mask(w)
				switch rng.Intn(4) {
				case 0:
					x = uint64(rng.Intn(3))
				case 1:
					x = mask(w) - uint64(rng.Intn(3))
				}
				m[n] = x
				s.v = append(s.v, x)
			}
			add(w, s)
		}
		{
			s := sx{t: f.Var("b0", 0)}
			for _, m := range models {
				m["b0"] = uint64(rng.Intn(2))
				s.v = append(s.v, m["b0"])
			}
			add(0, s)
		}
		for w := range map[int]bool{8: true, 16: true, 32: true, 64: true} {
			c := rng.Uint64() & mask(w)
			if rng.Intn(2) == 0 {
				c = uint64(rng.Intn(4))
			}
			s := sx{t: f.Const(w, c)}
			for range models {
				s.v = append(s.v, c)
			}
			add(w, s)
		}
		get := func(w int) (sx, bool) {
			p := pool[w]
			if len(p) == 0 {
				return sx{}, false
			}
			return p[rng.Intn(len(p))], true
		}
		un := func(a sx, t *Term, g func(x uint64) uint64) sx {
			s := sx{t: t}
			for i := range models {
				s.v = append(s.v, g(a.v[i]))
			}
			return s
		}
		bin := func(a, b sx, t *Term, g func(x, y uint64) uint64) sx {
			s := sx{t: t}
			for i := range models {
				s.v = append(s.v, g(a.v[i], b.v[i]))
			}
			return s
		}
		b2u := func(b bool) uint64 {
			if b {
				return 1
			}
			return 0
		}
		widths := []int{8, 16, 32, 64}
		for step := 0; step < 40; step++ {
			w := widths[rng.Intn(4)]
			M := mask(w)
			a, ok1 := get(w)
			b, ok2 := get(w)
			if !ok1 || !ok2 {
				continue
			}
			sg := func(x uint64) int64 { return int64(x<<(64-w)) >> (64 - w) }
			switch rng.Intn(26) {
			case 0:
				add(w, bin(a, b, f.Add(a.t, b.t), func(x, y uint64) uint64 { return (x + y) & M }))
			case 1:
				add(w, bin(a, b, f.Sub(a.t, b.t), func(x, y uint64) uint64 { return (x - y) & M }))
			case 2:
				add(w, bin(a, b, f.Mul(a.t, b.t), func(x, y uint64) uint64 { return (x * y) & M }))
			case 3:
				add(w, bin(a, b, f.And(a.t, b.t), func(x, y uint64) uint64 { return x & y }))
			case 4:
				add(w, bin(a, b, f.Or(a.t, b.t), func(x, y uint64) uint64 { return x | y }))
			case 5:
				add(w, bin(a, b, f.Xor(a.t, b.t), func(x, y uint64) uint64 { return x ^ y }))
			case 6:
				add(w, un(a, f.Not(a.t), func(x uint64) uint64 { return ^x & M }))
			case 7, 8:
				sh := uint64(rng.Intn(w + 2))
				c := f.Const(w, sh)
				switch rng.Intn(3) {
				case 0:
					add(w, un(a, f.Shl(a.t, c), func(x uint64) uint64 {
						if sh >= uint64(w) {
							return 0
						}
						return x << sh & M
					}))
				case 1:
					add(w, un(a, f.Lshr(a.t, c), func(x uint64) uint64 {
						if sh >= uint64(w) {
							return 0
						}
						return x >> sh
					}))
				case 2:
					add(w, un(a, f.Ashr(a.t, c), func(x uint64) uint64 {
						if sh >= uint64(w) {
							sh = uint64(w) - 1
						}
						return uint64(sg(x)>>sh) & M
					}))
				}
			case 9:
				add(w, bin(a, b, f.Shl(a.t, b.t), func(x, y uint64) uint64 {
					if y >= uint64(w) {
						return 0
					}
					return x << y & M
				}))
			case 10:
				add(w, bin(a, b, f.Lshr(a.t, b.t), func(x, y uint64) uint64 {
					if y >= uint64(w) {
						return 0
					}
					return x >> y
				}))
			case 11:
				lo := rng.Intn(w/8) * 8
				for _, ww := range widths {
					if lo+ww <= w && ww < w {
						add(ww, un(a, f.Extract(a.t, lo, ww), func(x uint64) uint64 { return x >> uint(lo) & mask(ww) }))
						break
					}
				}
			case 12:
				for _, ww := range widths {
					if ww > w {
						if rng.Intn(2) == 0 {
							add(ww, un(a, f.ZExt(a.t, ww), func(x uint64) uint64 { return x }))
						} else {
							add(ww, un(a, f.SExt(a.t, ww), func(x uint64) uint64 { return uint64(sg(x)) & mask(ww) }))
						}
						if rng.Intn(2) == 0 {
							break
						}
					}
				}
			case 13:
				if w < 64 {
					add(2*w, bin(a, b, f.Concat(a.t, b.t), func(x, y uint64) uint64 { return x<<uint(w) | y }))
				}
			case 14:
				add(0, bin(a, b, f.Eq(a.t, b.t), func(x, y uint64) uint64 { return b2u(x == y) }))
			case 15:
				add(0, bin(a, b, f.Ult(a.t, b.t), func(x, y uint64) uint64 { return b2u(x < y) }))
			case 16:
				add(0, bin(a, b, f.Slt(a.t, b.t), func(x, y uint64) uint64 { return b2u(sg(x) < sg(y)) }))
			case 17, 18:
				c, ok := get(0)
				if ok {
					s := sx{t: f.Ite(c.t, a.t, b.t)}
					for i := range models {
						if c.v[i] != 0 {
							s.v = append(s.v, a.v[i])
						} else {
							s.v = append(s.v, b.v[i])
						}
					}
					add(w, s)
				}
			case 19:
				c, ok := get(0)
				d, ok2 := get(0)
				if ok && ok2 {
					switch rng.Intn(4) {
					case 0:
						add(0, un(c, f.BNot(c.t), func(x uint64) uint64 { return 1 - x }))
					case 1:
						add(0, bin(c, d, f.BAnd(c.t, d.t), func(x, y uint64) uint64 { return x & y }))
					case 2:
						add(0, bin(c, d, f.BOr(c.t, d.t), func(x, y uint64) uint64 { return x | y }))
					case 3:
						add(0, bin(c, d, f.Eq(c.t, d.t), func(x, y uint64) uint64 { return b2u(x == y) }))
					}
				}
			case 20:
				k := uint64(rng.Intn(9) + 1)
				c := f.Const(w, k)
				switch rng.Intn(4) {
				case 0:
					add(w, un(a, f.UDiv(a.t, c), func(x uint64) uint64 { return x / k }))
				case 1:
					add(w, un(a, f.URem(a.t, c), func(x uint64) uint64 { return x % k }))
				case 2:
					add(w, un(a, f.SDiv(a.t, c), func(x uint64) uint64 { return uint64(sg(x)/int64(k)) & M }))
				case 3:
					add(w, un(a, f.SRem(a.t, c), func(x uint64) uint64 { return uint64(sg(x)%int64(k)) & M }))
				}
			case 21:
				if w == 8 {
					tab := make([]uint64, 256)
					ow := widths[rng.Intn(4)]
					lin := rng.Intn(2) == 0
					var cols [8]uint64
					for i := range cols {
						cols[i] = rng.Uint64() & mask(ow)
					}
					k := rng.Uint64() & mask(ow)
					for i := range tab {
						tab[i] = rng.Uint64() & mask(ow)
						if lin {
							tab[i] = k
							for j := 0; j < 8; j++ {
								if i>>uint(j)&1 != 0 {
									tab[i] ^= cols[j]
								}
							}
						}
					}
					add(ow, un(a, f.Table(tab, a.t, ow), func(x uint64) uint64 { return tab[x] }))
				}
			case 22:
				if w == 32 && rng.Intn(4) == 0 {
					s := un(a, f.F32to64(a.t), func(x uint64) uint64 { return math.Float64bits(float64(math.Float32frombits(uint32(x)))) })
					okf := true
					for i := range models {
						if math.IsNaN(float64(math.Float32frombits(uint32(a.v[i])))) {
							okf = false
						}
					}
					if okf {
						add(64, s)
					}
				}
			case 23:
				c := rng.Uint64() & M
				switch rng.Intn(3) {
				case 0:
					add(w, un(a, f.And(a.t, f.Const(w, c)), func(x uint64) uint64 { return x & c }))
				case 1:
					add(w, un(a, f.Or(a.t, f.Const(w, c)), func(x uint64) uint64 { return x | c }))
				case 2:
					c = 1<<uint(rng.Intn(w)) - 1
					add(w, un(a, f.And(a.t, f.Const(w, c)), func(x uint64) uint64 { return x & c }))
				}
			case 24:
				c := a.v[rng.Intn(NM)]
				add(0, un(a, f.Eq(a.t, f.Const(w, c)), func(x uint64) uint64 { return b2u(x == c) }))
			case 25:
				c := a.v[rng.Intn(NM)] + uint64(rng.Intn(2))
				c &= M
				if rng.Intn(2) == 0 {
					add(0, un(a, f.Ult(a.t, f.Const(w, c)), func(x uint64) uint64 { return b2u(x < c) }))
				} else {
					add(0, un(a, f.Slt(f.Const(w, c), a.t), func(x uint64) uint64 { return b2u(sg(c) < sg(x)) }))
				}
			}
		}
		if seed%8 == 0 && os.Getenv("NOSMT") == "" {
			s := NewSolver(f, st)
			var ws []int
			for w := range pool {
				ws = append(ws, w)
			}
			for k := 0; k < 4; k++ {
				w := ws[rng.Intn(len(ws))]
				p := pool[w]
				x := p[rng.Intn(len(p))]
				mi := rng.Intn(NM)
				var cs []*Term
				for i := 0; i < 4; i++ {
					n := fmt.Sprintf("v%d", i)
					v := f.Var(n, f.varWidth(n))
					cs = append(cs, f.Eq(v, f.Const(v.w, models[mi][n])))
				}
				if bv := f.Var("b0", 0); models[mi]["b0"] != 0 {
					cs = append(cs, bv)
				} else {
					cs = append(cs, f.BNot(bv))
				}
				e := f.Eq(x.t, f.Const(x.t.w, x.v[mi]))
				if x.t.w == 0 {
					e = x.t
					if x.v[mi] == 0 {
						e = f.BNot(x.t)
					}
				}
				if e.isC() {
					continue
				}
				nq++
				if r, _ := s.Check(append(cs[:5:5], e)); r != Sat {
					fmt.Printf("seed %d: solver says %v for true fact %v\n", seed, r, e)
					bad++
				}
				if r, _ := s.Check(append(cs[:5:5], f.BNot(e))); r != Unsat {
					fmt.Printf("seed %d: solver says %v for false fact %v\n", seed, r, e)
					bad++
				}
				// equivalence under arbitrary values: a model found must evaluate correctly
				if r, m := s.Check([]*Term{e}); r == Sat {
					f.SetModel(m)
					if f.Eval(e) == 0 {
						fmt.Printf("seed %d: model does not satisfy %v\n", seed, e)
						bad++
					}
				}
			}
			s.Close()
		}
	}
	fmt.Printf("self-test: %d terms, %d solver comparisons, %d problems\n", nt, nq, bad)
	if bad > 0 {
		return 1
	}
	return 0
}

func (f *Factory) varWidth(n string) int { return f.varIdx[n].w }
