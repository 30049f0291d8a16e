package main

import (
	"math/rand"
	"testing"
	"time"
)

// shadow is an unsimplified expression evaluated directly.
type shadow struct {
	t *Term
	f func(m Model) uint64
}

func TestSimplifier(t *testing.T) {
	ws := []int16{1, 4, 8, 16, 24, 32, 40, 64}
	for seed := int64(0); seed < 5000; seed++ {
		r := rand.New(rand.NewSource(seed))
		tb := NewTB()
		ev := newEvaluator(tb, func(string) uint64 { return 0 })
		var pool []shadow
		vars := []string{"a", "b", "c", "d"}
		vw := map[string]int16{}
		for _, n := range vars {
			w := ws[r.Intn(len(ws))]
			vw[n] = w
			n := n
			pool = append(pool, shadow{tb.Var(n, w), func(m Model) uint64 { return m[n] }})
		}
		pick := func(pred func(*Term) bool) *shadow {
			for k := 0; k < 40; k++ {
				s := &pool[r.Intn(len(pool))]
				if pred(s.t) {
					return s
				}
			}
			return nil
		}
		for k := 0; k < 60; k++ {
			if r.Intn(4) == 0 {
				w := ws[r.Intn(len(ws))]
				v := r.Uint64()
				switch r.Intn(4) {
				case 0:
					v = uint64(r.Intn(10))
				case 1:
					v = ^uint64(r.Intn(4))
				case 2:
					v = (uint64(1)<<uint(r.Intn(64)) - 1) << uint(r.Intn(64))
				}
				v &= mask(w)
				pool = append(pool, shadow{tb.Const(w, v), func(Model) uint64 { return v }})
				continue
			}
			a := *pick(func(*Term) bool { return true })
			if a.t.isBool() {
				b := pick(func(x *Term) bool { return x.isBool() })
				if b == nil {
					b = &a
				}
				switch r.Intn(5) {
				case 0:
					pool = append(pool, shadow{tb.Not(a.t), func(m Model) uint64 { return 1 - a.f(m) }})
				case 1:
					bb := *b
					pool = append(pool, shadow{tb.And(a.t, bb.t), func(m Model) uint64 { return a.f(m) & bb.f(m) }})
				case 2:
					bb := *b
					pool = append(pool, shadow{tb.Or(a.t, bb.t), func(m Model) uint64 { return a.f(m) | bb.f(m) }})
				case 3:
					bb := *b
					pool = append(pool, shadow{tb.Eq(a.t, bb.t), func(m Model) uint64 { return b2u(a.f(m) == bb.f(m)) }})
				case 4:
					x := pick(func(x *Term) bool { return x.w > 0 })
					if x == nil {
						continue
					}
					xx := *x
					y := pick(func(y *Term) bool { return y.w == xx.t.w })
					if y == nil {
						continue
					}
					yy := *y
					pool = append(pool, shadow{tb.Ite(a.t, xx.t, yy.t), func(m Model) uint64 {
						if a.f(m) != 0 {
							return xx.f(m)
						}
						return yy.f(m)
					}})
				}
				continue
			}
			w := a.t.w
			b0 := pick(func(x *Term) bool { return x.w == w })
			if b0 == nil {
				continue
			}
			b := *b0
			mk := func(t *Term, f func(x, y uint64) uint64) {
				mm := mask(t.w)
				if t.w == wBool {
					mm = 1
				}
				pool = append(pool, shadow{t, func(m Model) uint64 { return f(a.f(m), b.f(m)) & mm }})
			}
			sx := func(v uint64) int64 { return int64(signExt(v, w)) }
			switch r.Intn(24) {
			case 0:
				mk(tb.Add(a.t, b.t), func(x, y uint64) uint64 { return x + y })
			case 1:
				mk(tb.Sub(a.t, b.t), func(x, y uint64) uint64 { return x - y })
			case 2:
				mk(tb.Mul(a.t, b.t), func(x, y uint64) uint64 { return x * y })
			case 3:
				mk(tb.UDiv(a.t, b.t), func(x, y uint64) uint64 {
					if y == 0 {
						return ^uint64(0)
					}
					return x / y
				})
			case 4:
				mk(tb.URem(a.t, b.t), func(x, y uint64) uint64 {
					if y == 0 {
						return x
					}
					return x % y
				})
			case 5:
				mk(tb.SDiv(a.t, b.t), func(x, y uint64) uint64 {
					p, q := sx(x), sx(y)
					if q == 0 {
						if p < 0 {
							return 1
						}
						return ^uint64(0)
					}
					if q == -1 {
						return uint64(-p)
					}
					return uint64(p / q)
				})
			case 6:
				mk(tb.SRem(a.t, b.t), func(x, y uint64) uint64 {
					p, q := sx(x), sx(y)
					if q == 0 {
						return x
					}
					if q == -1 {
						return 0
					}
					return uint64(p % q)
				})
			case 7:
				mk(tb.BAnd(a.t, b.t), func(x, y uint64) uint64 { return x & y })
			case 8, 20, 21:
				mk(tb.BOr(a.t, b.t), func(x, y uint64) uint64 { return x | y })
			case 9:
				mk(tb.BXor(a.t, b.t), func(x, y uint64) uint64 { return x ^ y })
			case 10, 22:
				c := tb.Const(w, uint64(r.Intn(int(w)+1)))
				mk(tb.Shl(a.t, c), func(x, y uint64) uint64 {
					if c.val >= uint64(w) {
						return 0
					}
					return x << c.val
				})
			case 11, 23:
				c := tb.Const(w, uint64(r.Intn(int(w)+1)))
				mk(tb.Lshr(a.t, c), func(x, y uint64) uint64 {
					if c.val >= uint64(w) {
						return 0
					}
					return x >> c.val
				})
			case 12:
				mk(tb.Ashr(a.t, b.t), func(x, y uint64) uint64 { return uint64(sx(x) >> min(y, 63)) })
			case 13:
				mk(tb.Shl(a.t, b.t), func(x, y uint64) uint64 {
					if y >= uint64(w) {
						return 0
					}
					return x << y
				})
			case 14:
				mk(tb.Ult(a.t, b.t), func(x, y uint64) uint64 { return b2u(x < y) })
			case 15:
				mk(tb.Slt(a.t, b.t), func(x, y uint64) uint64 { return b2u(sx(x) < sx(y)) })
			case 16:
				mk(tb.Eq(a.t, b.t), func(x, y uint64) uint64 { return b2u(x == y) })
			case 17:
				nw := ws[r.Intn(len(ws))]
				sg := r.Intn(2) == 0
				mk(tb.Resize(a.t, nw, sg), func(x, y uint64) uint64 {
					if sg {
						return signExt(x, w)
					}
					return x
				})
			case 18:
				lo := r.Intn(int(w))
				ww := 1 + r.Intn(int(w)-lo)
				mk(tb.Extract(a.t, int16(lo), int16(ww)), func(x, y uint64) uint64 { return x >> uint(lo) })
			case 19:
				q := pick(func(x *Term) bool { return x.w > 0 && x.w+w <= 64 })
				if q == nil {
					continue
				}
				qq := *q
				t := tb.Concat(a.t, qq.t)
				pool = append(pool, shadow{t, func(m Model) uint64 { return a.f(m)<<uint(qq.t.w) | qq.f(m) }})
			}
		}
		for k := 0; k < 12; k++ {
			m := Model{}
			for _, n := range vars {
				v := r.Uint64()
				if k%3 == 0 {
					v = uint64(r.Intn(4))
				} else if k%3 == 1 {
					v = ^uint64(r.Intn(4))
				}
				m[n] = v & mask(vw[n])
			}
			ev.reset(m)
			for i, s := range pool {
				g, w := ev.eval(s.t), s.f(m)
				if g != w {
					t.Fatalf("seed %d pool %d: got %x want %x: %s", seed, i, g, w, bodySMT(s.t))
				}
				if s.t.w > 0 && (g < s.t.lo || g > s.t.hi) {
					t.Fatalf("seed %d pool %d: %x outside [%x,%x]: %s", seed, i, g, s.t.lo, s.t.hi, bodySMT(s.t))
				}
			}
		}
	}
}

// TestSolverAgrees checks the printed SMT-LIB against the evaluator.
func TestSolverAgrees(t *testing.T) {
	tb := NewTB()
	s := NewSolver(tb, 5*time.Second)
	defer s.Close()
	ev := newEvaluator(tb, func(string) uint64 { return 0 })
	x, y := tb.Var("x", 32), tb.Var("y", 8)
	c := tb.Eq(tb.Add(tb.Mul(x, tb.Const(32, 3)), tb.Zext(y, 32)), tb.Const(32, 1000))
	c2 := tb.Ult(tb.Const(8, 250), y)
	r, m := s.Check([]*Term{c}, c2)
	if r != Sat {
		t.Fatal(r)
	}
	ev.reset(m)
	if ev.eval(c) != 1 || ev.eval(c2) != 1 {
		t.Fatal(m)
	}
	r, _ = s.Check([]*Term{c, c2}, tb.Ult(y, tb.Const(8, 251)))
	if r != Unsat {
		t.Fatal(r)
	}
}

// TestCheckSums checks sums modulo a constant over small variables.
func TestCheckSums(t *testing.T) {
	for seed := int64(0); seed < 3000; seed++ {
		r := rand.New(rand.NewSource(seed))
		tb := NewTB()
		ev := newEvaluator(tb, func(string) uint64 { return 0 })
		bounds := []uint64{10, 22, 256, 2, 32}
		names := []string{"p", "q", "r", "s", "u"}
		var pool []shadow
		for i, n := range names {
			n, bits := n, int16(1)
			for uint64(1)<<uint(bits) < bounds[i] {
				bits++
			}
			v := tb.Zext(tb.VarBelow(n, bits, bounds[i]), 64)
			pool = append(pool, shadow{v, func(m Model) uint64 { return m[n] }})
		}
		m64 := uint64(97)
		if r.Intn(4) == 0 {
			m64 = []uint64{100, 251, 64, 1000}[r.Intn(4)]
		}
		k := func(v uint64) *Term { return tb.Const(64, v) }
		for n := 0; n < 40; n++ {
			a, b := pool[r.Intn(len(pool))], pool[r.Intn(len(pool))]
			c := uint64(r.Intn(200))
			var s shadow
			switch r.Intn(10) {
			case 0, 1:
				s = shadow{tb.Add(a.t, b.t), func(m Model) uint64 { return a.f(m) + b.f(m) }}
			case 2:
				s = shadow{tb.Mul(a.t, k(c)), func(m Model) uint64 { return a.f(m) * c }}
			case 3, 4:
				s = shadow{tb.URem(a.t, k(m64)), func(m Model) uint64 { return a.f(m) % m64 }}
			case 5:
				s = shadow{tb.UDiv(a.t, k(10)), func(m Model) uint64 { return a.f(m) / 10 }}
			case 6:
				s = shadow{tb.URem(a.t, k(10)), func(m Model) uint64 { return a.f(m) % 10 }}
			case 7:
				s = shadow{tb.Ite(tb.Ult(a.t, k(c)), b.t, tb.Add(b.t, k(7))), func(m Model) uint64 {
					if a.f(m) < c {
						return b.f(m)
					}
					return b.f(m) + 7
				}}
			case 8:
				s = shadow{tb.Sub(k(98), tb.URem(a.t, k(m64))), func(m Model) uint64 { return 98 - a.f(m)%m64 }}
			case 9:
				x := tb.Extract(tb.URem(a.t, k(m64)), 0, 8)
				s = shadow{tb.Zext(x, 64), func(m Model) uint64 { return a.f(m) % m64 & 255 }}
			}
			pool = append(pool, s)
		}
		for n := 0; n < 10; n++ {
			m := Model{}
			for i, v := range names {
				m[v] = uint64(r.Intn(int(bounds[i])))
			}
			ev.reset(m)
			for i, s := range pool {
				g, w := ev.eval(s.t), s.f(m)
				if g != w || g < s.t.lo || g > s.t.hi {
					t.Fatalf("seed %d pool %d: got %d want %d in [%d,%d]: %s", seed, i, g, w, s.t.lo, s.t.hi, bodySMT(s.t))
				}
			}
		}
	}
}
