package main

// Decimal conversions of symbolic numbers, and a normal form for sums modulo a
// constant, in which the different ways to compute a check sum coincide.

import (
	"math/bits"
	"sort"
	"strconv"
)

// decimal formats a number, forking over its length.
func (w *worker) decimal(x *Term) str {
	tb := w.tb
	if x.isConst() {
		return str{s: utoa(x.val)}
	}
	n, p := 1, uint64(10)
	for n < 20 && w.branch(tb.Ule(tb.Const(64, p), x)) {
		n++
		p *= 10
	}
	b := make([]*Term, n)
	p = 1
	for i := n - 1; i >= 0; i-- {
		d := tb.UDiv(x, tb.Const(64, p))
		if i > 0 {
			d = tb.URem(d, tb.Const(64, 10))
		}
		b[i] = tb.Add(tb.Const(8, '0'), tb.Extract(d, 0, 8))
		p *= 10
	}
	return str{b: b}
}

func utoa(v uint64) string {
	var b [20]byte
	i := len(b)
	for {
		i--
		b[i] = byte('0' + v%10)
		v /= 10
		if v == 0 {
			return string(b[i:])
		}
	}
}

// parseDecimal reads up to 18 digits, or reports that the text may be something else.
func (w *worker) parseDecimal(s str) (*Term, bool) {
	tb := w.tb
	if s.b == nil || len(s.b) == 0 || len(s.b) > 18 || w.noFork {
		return nil, false
	}
	var in []*Term
	for _, c := range s.b {
		in = append(in, tb.Ule(tb.Const(8, '0'), c), tb.Ule(c, tb.Const(8, '9')))
	}
	if c := tb.And(in...); c != tb.True && !w.branch(c) {
		return nil, false
	}
	r := tb.Const(64, 0)
	for _, c := range s.b {
		d := tb.Zext(tb.Sub(c, tb.Const(8, '0')), 64)
		r = tb.Add(tb.Mul(r, tb.Const(64, 10)), d)
	}
	return r, true
}

func isNum(v value, want ...uint64) bool {
	t, ok := v.(*Term)
	if !ok || !t.isConst() {
		return false
	}
	for _, x := range want {
		if t.val == x {
			return true
		}
	}
	return false
}

// optional intrinsics handle some arguments and leave the rest to the real body.
var optTable = map[string]func(w *worker, a []value) (value, bool){
	"strconv.ParseUint": func(w *worker, a []value) (value, bool) {
		if !isNum(a[1], 10) || !isNum(a[2], 0, 64) {
			return nil, false
		}
		r, ok := w.parseDecimal(a[0].(str))
		return tuple{r, iface{}}, ok
	},
	"strconv.ParseInt": func(w *worker, a []value) (value, bool) {
		if !isNum(a[1], 10) || !isNum(a[2], 0, 64) {
			return nil, false
		}
		r, ok := w.parseDecimal(a[0].(str))
		return tuple{r, iface{}}, ok
	},
	"strconv.Atoi": func(w *worker, a []value) (value, bool) {
		r, ok := w.parseDecimal(a[0].(str))
		return tuple{r, iface{}}, ok
	},
}

// ---- sums modulo a constant ----

type modForm struct {
	tb    *TB
	m     uint64
	c     uint64
	atoms map[*Term]uint64   // coefficients
	tabs  map[*Term][]uint64 // functions of one small variable
	depth int
	steps int
}

// varsOf lists up to two variables of t.
func (tb *TB) varsOf(t *Term) []*Term {
	if tb.vsup == nil {
		tb.vsup = map[int32][]*Term{}
	}
	if v, ok := tb.vsup[t.id]; ok {
		return v
	}
	var out []*Term
	if t.op == OpVar {
		out = []*Term{t}
	}
	for _, a := range t.args {
		for _, v := range tb.varsOf(a) {
			dup := false
			for _, o := range out {
				dup = dup || o == v
			}
			if !dup && len(out) < 2 {
				out = append(out, v)
			}
		}
	}
	tb.vsup[t.id] = out
	return out
}

func (f *modForm) mul(a, b uint64) uint64 { return a % f.m * (b % f.m) % f.m }

func (f *modForm) add(t *Term, k uint64) {
	tb := f.tb
	f.steps++
	if k %= f.m; k == 0 {
		return
	}
	if t.isConst() {
		f.c = (f.c + f.mul(t.val, k)) % f.m
		return
	}
	if vs := tb.varsOf(t); len(vs) == 1 && vs[0].w > 0 && vs[0].w <= 8 && t.size < 5000 {
		v := vs[0]
		tab := tb.table(t, v)
		dst := f.tabs[v]
		if dst == nil {
			dst = make([]uint64, len(tab))
			f.tabs[v] = dst
		}
		for i := range tab {
			dst[i] = (dst[i] + f.mul(tab[i], k)) % f.m
		}
		return
	}
	if f.depth++; f.depth > 400 {
		f.atoms[t] += k
		return
	}
	defer func() { f.depth-- }()
	switch t.op {
	case OpConcat:
		sh := int16(0)
		for i := len(t.args) - 1; i >= 0; i-- {
			f.add(t.args[i], f.mul(1<<uint(sh), k))
			sh += t.args[i].w
		}
		return
	case OpAdd:
		a, b := t.args[0], t.args[1]
		if s, c := bits.Add64(a.hi, b.hi, 0); c == 0 && s <= mask(t.w) {
			f.add(a, k)
			f.add(b, k)
			return
		}
		if n := negOf(b); n != nil && a.lo >= n.hi {
			f.add(a, k)
			f.add(n, f.m-k)
			return
		}
		if n := negOf(a); n != nil && b.lo >= n.hi {
			f.add(b, k)
			f.add(n, f.m-k)
			return
		}
		if b.isConst() && a.lo >= -b.val&mask(t.w) { // subtraction of a constant
			f.add(a, k)
			f.add(tb.Const(t.w, -b.val), f.m-k)
			return
		}
	case OpMul:
		if c := t.args[1]; c.isConst() {
			if h, l := bits.Mul64(t.args[0].hi, c.val); h == 0 && l <= mask(t.w) {
				f.add(t.args[0], f.mul(c.val, k))
				return
			}
		}
	case OpExtract:
		if t.val == 0 && t.args[0].hi <= mask(t.w) {
			f.add(t.args[0], k)
			return
		}
	case OpURem:
		if d := t.args[1]; d.isConst() && d.val != 0 {
			f.add(t.args[0], k)
			if d.val%f.m != 0 {
				f.add(tb.UDiv(t.args[0], d), f.m-f.mul(d.val, k))
			}
			return
		}
	}
	f.atoms[t] = (f.atoms[t] + k) % f.m
}

// table lists the values of t for every value of its only variable.
func (tb *TB) table(t, v *Term) []uint64 {
	if tb.tabs == nil {
		tb.tabs = map[int32][]uint64{}
		tb.tabEv = newEvaluator(tb, func(string) uint64 { return 0 })
	}
	if t.isConst() {
		r := make([]uint64, v.hi+1)
		for i := range r {
			r[i] = t.val
		}
		return r
	}
	if r, ok := tb.tabs[t.id]; ok {
		return r
	}
	r := make([]uint64, v.hi+1)
	for i := range r {
		tb.tabEv.reset(Model{v.name: uint64(i)})
		r[i] = tb.tabEv.eval(t)
	}
	tb.tabs[t.id] = r
	return r
}

// lookup is the term for a table.
func (tb *TB) lookup(v *Term, tab []uint64, w int16) *Term {
	if len(tab) == 1 {
		return tb.Const(w, tab[0])
	}
	h := 1 << uint(bits.Len(uint(len(tab)-1))-1)
	bit := int16(bits.TrailingZeros(uint(h)))
	lo, hi := tb.lookup(v, tab[:h], w), tb.lookup(v, tab[h:], w)
	if lo == hi {
		return lo
	}
	return tb.Ite(tb.Eq(tb.Extract(v, bit, 1), tb.Const(1, 1)), hi, lo)
}

// modBase is the first remainder met among those that determine each other.
type modBase struct {
	rem  *Term // a remainder that is a*s + c for some sum s
	a, c uint64
}

func inverse(a, m uint64) uint64 {
	for i := uint64(1); i < m; i++ {
		if a*i%m == 1 {
			return i
		}
	}
	return 0
}

// modSum brings x mod m into a normal form, or returns nil. With id != "", x mod m is
// a*s + c mod m for some sum s that only depends on id.
func (tb *TB) modSum(x *Term, m uint64) (sum *Term, id string, a, c uint64) {
	if x.op == OpVar || x.w != 64 || m < 32 || m > 1<<16 {
		return
	}
	f := &modForm{tb: tb, m: m, atoms: map[*Term]uint64{}, tabs: map[*Term][]uint64{}}
	f.add(x, 1)
	type part struct {
		id int32
		t  *Term
		k  []uint64
	}
	var pure, rest []part
	for t, k := range f.atoms {
		if k == 0 {
			continue
		}
		if t.hi > 1<<40 {
			return nil, "", 0, 0
		}
		rest = append(rest, part{t.id, tb.Mul(tb.Zext(t, 64), tb.Const(64, k)), nil})
	}
	for v, tab := range f.tabs {
		f.c = (f.c + tab[0]) % m
		zero := true
		norm := make([]uint64, len(tab))
		for i := range tab {
			norm[i] = (tab[i] + m - tab[0]) % m
			zero = zero && norm[i] == 0
		}
		if !zero {
			pure = append(pure, part{v.id, v, norm})
		}
	}
	sort.Slice(pure, func(i, j int) bool { return pure[i].id < pure[j].id })
	sort.Slice(rest, func(i, j int) bool { return rest[i].id < rest[j].id })
	c = f.c
	if len(pure) > 0 {
		// Scale the first coefficient to one.
		for i := len(pure[0].k) - 1; i >= 0; i-- {
			if v := pure[0].k[i]; v != 0 {
				a = v
			}
		}
		if inv := inverse(a, m); inv != 0 {
			key := make([]byte, 0, 64*len(pure))
			for _, p := range pure {
				key = append(key, byte(p.id>>24), byte(p.id>>16), byte(p.id>>8), byte(p.id), byte(len(p.k)), byte(len(p.k)>>8))
				for _, v := range p.k {
					v = v * inv % m
					key = append(key, byte(v), byte(v>>8))
				}
			}
			id = string(append(key, byte(m), byte(m>>8)))
		}
	}
	if base, ok := tb.modBases[id]; ok && id != "" {
		// This part follows from that remainder.
		k := a * inverse(base.a, m) % m
		c = (c + m*m - k*base.c) % m
		sum = tb.Mul(base.rem, tb.Const(64, k))
		id = ""
	} else {
		sum = tb.Const(64, 0)
		for _, p := range pure {
			// Linear with a few jumps, or a table.
			v, norm := p.t, p.k
			t := tb.Mul(tb.Zext(v, 64), tb.Const(64, norm[1]))
			jumps := 0
			for i := 1; i < len(norm) && t != nil; i++ {
				if j := (norm[i] + 2*m - norm[i-1] - norm[1]) % m; j != 0 {
					ge := tb.Not(tb.Ult(v, tb.Const(v.w, uint64(i))))
					t = tb.Add(t, tb.Ite(ge, tb.Const(64, j), tb.Const(64, 0)))
					if jumps++; jumps > 4 {
						t = nil
					}
				}
			}
			if t == nil {
				t = tb.lookup(v, norm, 64)
			}
			sum = tb.Add(sum, t)
		}
	}
	for _, p := range rest {
		sum = tb.Add(sum, p.t)
		id = ""
	}
	if sum.hi > 1<<62 {
		return nil, "", 0, 0
	}
	return tb.Add(sum, tb.Const(64, c)), id, a, c
}

// signedDecimal formats a signed number; negative ones are concretised.
func (w *worker) signedDecimal(x *Term) str {
	if x.hi < 1<<63 && !x.isConst() {
		return w.decimal(x)
	}
	return str{s: strconv.FormatInt(int64(w.concretize(x).val), 10)}
}
