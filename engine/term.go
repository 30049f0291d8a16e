package main

// Hash-consed SMT terms (booleans, bit-vectors up to 64 bits, IEEE floats)
// with a normalising simplifier. Byte-shuffling code (shift/or/mask/convert)
// normalises to concat/extract form, so encode/decode round trips mostly
// collapse syntactically and the solver only sees what is left.

import (
	"fmt"
	"math"
	"math/bits"
	"sort"
)

type Op uint8

const (
	OpConst Op = iota
	OpVar
	OpNot
	OpAnd
	OpOr
	OpIte
	OpEq
	OpAdd
	OpMul
	OpUDiv
	OpURem
	OpSDiv
	OpSRem
	OpBAnd
	OpBOr
	OpBXor
	OpShl
	OpLshr
	OpAshr
	OpConcat
	OpExtract // val = low bit
	OpSext
	OpUlt
	OpSlt
	// floating point (w < 0)
	OpFAdd
	OpFSub
	OpFMul
	OpFDiv
	OpFNeg
	OpFLt
	OpFLe
	OpFEq
	OpFFromU // bv -> float, unsigned
	OpFFromS // bv -> float, signed
	OpFToU   // float -> bv, RTZ
	OpFToS
	OpFToF // float width change
)

const (
	wBool = 0
	wF64  = -64
	wF32  = -32
)

type Term struct {
	op     Op
	w      int16
	id     int32
	size   int32 // dag-ignorant size estimate, saturating
	val    uint64
	args   []*Term
	name   string
	lo, hi uint64 // unsigned range for bit-vectors
	leaf   bool   // constant, or ite tree with constant leaves (bounded)
	hkey   uint64
}

func (t *Term) isConst() bool { return t.op == OpConst }
func (t *Term) isBool() bool  { return t.w == wBool }

// TB builds terms. Not safe for concurrent use; each worker owns one.
type TB struct {
	tab      map[uint64][]*Term
	next     int32
	vars     []*Term
	byVar    map[string]*Term
	True     *Term
	False    *Term
	small    [9][]*Term
	vsup     map[int32][]*Term
	canon    map[int32]*Term
	modBases map[string]modBase
	byTab    map[string]*Term
	below    map[*Term]bool
	tabs     map[int32][]uint64
	tabEv    *evaluator
}

func NewTB() *TB {
	tb := &TB{tab: map[uint64][]*Term{}, byVar: map[string]*Term{}}
	tb.False = tb.mk(OpConst, wBool, 0, "")
	tb.True = tb.mk(OpConst, wBool, 1, "")
	tb.small[8] = make([]*Term, 256)
	for i := range tb.small[8] {
		tb.small[8][i] = tb.mk(OpConst, 8, uint64(i), "")
	}
	return tb
}

func (tb *TB) size() int { return int(tb.next) }

func mask(w int16) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

func hashMix(h, v uint64) uint64 {
	h ^= v + 0x9e3779b97f4a7c15 + (h << 6) + (h >> 2)
	h *= 0xff51afd7ed558ccd
	h ^= h >> 33
	return h
}

func (tb *TB) mk(op Op, w int16, val uint64, name string, args ...*Term) *Term {
	t := tb.mkRaw(op, w, val, name, args...)
	if tb.below != nil && len(args) > 0 && w <= 64 {
		return tb.canonical(t)
	}
	return t
}

// canonical finds the representative of the functions of one small variable that
// take the same values.
func (tb *TB) canonical(t *Term) *Term {
	if c, ok := tb.canon[t.id]; ok {
		return c
	}
	vs := tb.varsOf(t)
	if len(vs) != 1 || !tb.below[vs[0]] || t.size > 5000 {
		return t
	}
	tab := tb.table(t, vs[0])
	lo, hi := tab[0], tab[0]
	key := make([]byte, 0, 8+8*len(tab))
	key = append(key, fmt.Sprint(vs[0].id, " ", t.w, " ")...)
	for _, x := range tab {
		lo, hi = min(lo, x), max(hi, x)
		for i := 0; i < 64; i += 8 {
			key = append(key, byte(x>>uint(i)))
		}
	}
	c := tb.byTab[string(key)]
	switch {
	case c != nil:
	case lo == hi && t.w == wBool:
		c = tb.Bool(lo != 0)
	case lo == hi:
		c = tb.Const(t.w, lo)
	default:
		if c = t; t.w > 0 {
			t.lo, t.hi = lo, hi
		}
		tb.byTab[string(key)] = c
	}
	tb.canon[t.id] = c
	return c
}

func (tb *TB) mkRaw(op Op, w int16, val uint64, name string, args ...*Term) *Term {
	h := hashMix(uint64(op)<<32|uint64(uint16(w)), val)
	for _, a := range args {
		h = hashMix(h, uint64(a.id)+0x1234)
	}
	for i := 0; i < len(name); i++ {
		h = hashMix(h, uint64(name[i]))
	}
outer:
	for _, t := range tb.tab[h] {
		if t.op == op && t.w == w && t.val == val && t.name == name && len(t.args) == len(args) {
			for i := range args {
				if t.args[i] != args[i] {
					continue outer
				}
			}
			return t
		}
	}
	t := &Term{op: op, w: w, val: val, name: name, id: tb.next, hkey: h}
	if len(args) > 0 {
		t.args = append([]*Term(nil), args...)
	}
	tb.next++
	sz := int64(1)
	for _, a := range args {
		sz += int64(a.size)
	}
	if sz > 1<<30 {
		sz = 1 << 30
	}
	t.size = int32(sz)
	tb.ranges(t)
	switch op {
	case OpConst:
		t.leaf = true
	case OpIte:
		t.leaf = args[1].leaf && args[2].leaf && sz < 600
	}
	tb.tab[h] = append(tb.tab[h], t)
	return t
}

func (tb *TB) ranges(t *Term) {
	if t.w <= 0 {
		return
	}
	m := mask(t.w)
	t.lo, t.hi = 0, m
	a := t.args
	switch t.op {
	case OpConst:
		t.lo, t.hi = t.val, t.val
	case OpIte:
		t.lo, t.hi = min(a[1].lo, a[2].lo), max(a[1].hi, a[2].hi)
	case OpAdd:
		lo, c1 := bits.Add64(a[0].lo, a[1].lo, 0)
		hi, c2 := bits.Add64(a[0].hi, a[1].hi, 0)
		if c1 == 0 && c2 == 0 && hi <= m {
			t.lo, t.hi = lo, hi
		} else if n := negOf(a[1]); n != nil && a[0].lo >= n.hi {
			t.lo, t.hi = a[0].lo-n.hi, a[0].hi-n.lo
		} else if n := negOf(a[0]); n != nil && a[1].lo >= n.hi {
			t.lo, t.hi = a[1].lo-n.hi, a[1].hi-n.lo
		}
	case OpMul:
		h1, hi := bits.Mul64(a[0].hi, a[1].hi)
		if h1 == 0 && hi <= m {
			t.hi = hi
			t.lo = a[0].lo * a[1].lo
		}
	case OpUDiv:
		if a[1].lo > 0 {
			t.hi = a[0].hi / a[1].lo
			if a[1].hi > 0 {
				t.lo = a[0].lo / a[1].hi
			}
		}
	case OpURem:
		t.hi = a[0].hi
		if a[1].lo > 0 && a[1].hi-1 < t.hi {
			t.hi = a[1].hi - 1
		}
	case OpBAnd:
		t.hi = min(a[0].hi, a[1].hi)
	case OpBOr, OpBXor:
		k := bits.Len64(a[0].hi | a[1].hi)
		t.hi = min(m, mask(int16(k)))
		if t.op == OpBOr {
			t.lo = max(a[0].lo, a[1].lo)
		}
	case OpLshr:
		t.hi = a[0].hi
	case OpConcat:
		var lo, hi uint64
		for _, x := range a {
			lo = lo<<uint(x.w) | x.lo
			hi = hi<<uint(x.w) | x.hi
		}
		t.lo, t.hi = lo, hi
	case OpExtract:
		if t.val == 0 {
			if a[0].hi <= m {
				t.lo, t.hi = a[0].lo, a[0].hi
			}
		} else if t.val+uint64(t.w) == uint64(a[0].w) {
			t.lo, t.hi = a[0].lo>>t.val, a[0].hi>>t.val
		}
	}
}

// ---- constructors ----

func (tb *TB) Const(w int16, v uint64) *Term {
	if w == 8 {
		return tb.small[8][v&0xff]
	}
	if w > 0 {
		v &= mask(w)
	}
	return tb.mk(OpConst, w, v, "")
}

func (tb *TB) Bool(b bool) *Term {
	if b {
		return tb.True
	}
	return tb.False
}

func (tb *TB) Var(name string, w int16) *Term {
	if t := tb.byVar[name]; t != nil {
		if t.w != w {
			panic("var redeclared with other width: " + name)
		}
		return t
	}
	t := tb.mk(OpVar, w, 0, name)
	tb.byVar[name] = t
	tb.vars = append(tb.vars, t)
	return t
}

// VarBelow is a variable with values 0..n-1; whoever makes it asserts so.
func (tb *TB) VarBelow(name string, w int16, n uint64) *Term {
	t := tb.Var(name, w)
	t.hi = n - 1
	if tb.below == nil {
		tb.below = map[*Term]bool{}
		tb.canon = map[int32]*Term{}
		tb.byTab = map[string]*Term{}
	}
	tb.below[t] = true
	return t
}

// tabulate decides or simplifies a comparison that depends on a single small variable.
func (tb *TB) tabulate(op Op, a, b *Term) *Term {
	if a.op == OpVar && b.isConst() || b.op == OpVar && a.isConst() || a.size+b.size > 5000 {
		return nil
	}
	vs := tb.varsOf(a)
	if len(vs) == 0 {
		vs = tb.varsOf(b)
	}
	if len(vs) != 1 || !tb.below[vs[0]] {
		return nil
	}
	v := vs[0]
	if o := tb.varsOf(b); len(o) > 1 || len(o) == 1 && o[0] != v {
		return nil
	}
	x, y := tb.table(a, v), tb.table(b, v)
	n, first, last := 0, -1, -1
	for i := range x {
		if op == OpEq && x[i] == y[i] || op == OpUlt && x[i] < y[i] {
			if n++; first < 0 {
				first = i
			}
			last = i
		}
	}
	switch {
	case n == 0:
		return tb.False
	case n == len(x):
		return tb.True
	case n == 1:
		return tb.Eq(v, tb.Const(v.w, uint64(first)))
	case first == 0 && last == n-1:
		return tb.Ult(v, tb.Const(v.w, uint64(n)))
	case last == len(x)-1 && last-first == n-1:
		return tb.Not(tb.Ult(v, tb.Const(v.w, uint64(first))))
	}
	return nil
}

func (tb *TB) Not(a *Term) *Term {
	switch a.op {
	case OpConst:
		return tb.Bool(a.val == 0)
	case OpNot:
		return a.args[0]
	}
	return tb.mk(OpNot, wBool, 0, "", a)
}

func (tb *TB) And(as ...*Term) *Term { return tb.nary(OpAnd, as) }
func (tb *TB) Or(as ...*Term) *Term  { return tb.nary(OpOr, as) }

func (tb *TB) nary(op Op, as []*Term) *Term {
	unit, zero := tb.True, tb.False
	if op == OpOr {
		unit, zero = zero, unit
	}
	if len(as) == 2 {
		// fast cases
		if as[0] == unit {
			return as[1]
		}
		if as[1] == unit || as[0] == as[1] {
			return as[0]
		}
		if as[0] == zero || as[1] == zero {
			return zero
		}
	}
	var out []*Term
	for _, a := range as {
		if a == unit {
			continue
		}
		if a == zero {
			return zero
		}
		if a.op == op {
			out = append(out, a.args...)
		} else {
			out = append(out, a)
		}
	}
	if len(out) == 0 {
		return unit
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	k := 0
	for i, a := range out {
		if i > 0 && a == out[k-1] {
			continue
		}
		out[k] = a
		k++
	}
	out = out[:k]
	if len(out) == 1 {
		return out[0]
	}
	if len(out) <= 64 {
		seen := map[*Term]bool{}
		for _, a := range out {
			seen[a] = true
		}
		for _, a := range out {
			if a.op == OpNot && seen[a.args[0]] {
				return zero
			}
		}
	}
	return tb.mk(op, wBool, 0, "", out...)
}

func (tb *TB) Implies(a, b *Term) *Term { return tb.Or(tb.Not(a), b) }

func leadZero(t *Term) int16 { return t.w - int16(bits.Len64(t.hi)) }

func narrowable(t *Term) bool {
	return t.op == OpConst || (t.op == OpConcat && t.args[0].op == OpConst && t.args[0].val == 0) ||
		(t.op == OpExtract && t.val == 0 && t.args[0].op == OpURem)
}

func (tb *TB) Ite(c, a, b *Term) *Term {
	if c == tb.True {
		return a
	}
	if c == tb.False {
		return b
	}
	if a == b {
		return a
	}
	if c.op == OpNot {
		return tb.Ite(c.args[0], b, a)
	}
	if a.isBool() {
		if a == tb.True {
			return tb.Or(c, b)
		}
		if a == tb.False {
			return tb.And(tb.Not(c), b)
		}
		if b == tb.True {
			return tb.Or(tb.Not(c), a)
		}
		if b == tb.False {
			return tb.And(c, a)
		}
		if b.op == OpNot && b.args[0] == a {
			return tb.Eq(c, a)
		}
	}
	if a.op == OpIte && a.args[0] == c {
		a = a.args[1]
	}
	if b.op == OpIte && b.args[0] == c {
		b = b.args[2]
	}
	if a == b {
		return a
	}
	// ite(c1, ite(c2,x,y), y) => ite(c1&c2, x, y)
	if a.op == OpIte && a.args[2] == b {
		return tb.Ite(tb.And(c, a.args[0]), a.args[1], b)
	}
	if b.op == OpIte && b.args[1] == a {
		return tb.Ite(tb.Or(c, b.args[0]), a, b.args[2])
	}
	if a.w > 1 && narrowable(a) && narrowable(b) && !(a.isConst() && b.isConst()) {
		k := min(leadZero(a), leadZero(b))
		if k > 0 && k < a.w {
			return tb.Zext(tb.Ite(c, tb.Extract(a, 0, a.w-k), tb.Extract(b, 0, a.w-k)), a.w)
		}
	}
	return tb.mk(OpIte, a.w, 0, "", c, a, b)
}

func (tb *TB) Eq(a, b *Term) *Term {
	if a == b {
		return tb.True
	}
	if a.w != b.w {
		panic(fmt.Sprintf("Eq width mismatch %d %d", a.w, b.w))
	}
	if a.isConst() && b.isConst() {
		return tb.False // distinct constants (hash-consed)
	}
	if a.isConst() {
		a, b = b, a
	}
	if a.w == wBool {
		if b == tb.True {
			return a
		}
		if b == tb.False {
			return tb.Not(a)
		}
		if a.op == OpNot && b.op == OpNot {
			return tb.Eq(a.args[0], b.args[0])
		}
		if a.op == OpNot {
			return tb.Not(tb.Eq(a.args[0], b))
		}
		if b.op == OpNot {
			return tb.Not(tb.Eq(a, b.args[0]))
		}
	} else if a.w > 0 {
		if a.hi < b.lo || b.hi < a.lo {
			return tb.False
		}
		if tb.below != nil && a.w <= 64 {
			if t := tb.tabulate(OpEq, a, b); t != nil {
				return t
			}
		}
		if a.leaf && b.leaf {
			return tb.eqLeaf(a, b)
		}
		if a.op == OpConcat || b.op == OpConcat {
			return tb.eqSplit(a, b)
		}
		if b.isConst() {
			switch a.op {
			case OpAdd:
				if a.args[1].isConst() {
					return tb.Eq(a.args[0], tb.Const(a.w, b.val-a.args[1].val))
				}
			case OpBXor:
				if a.args[1].isConst() {
					return tb.Eq(a.args[0], tb.Const(a.w, b.val^a.args[1].val))
				}
			case OpIte:
				if a.args[1].isConst() || a.args[2].isConst() || a.size < 200 {
					return tb.Ite(a.args[0], tb.Eq(a.args[1], b), tb.Eq(a.args[2], b))
				}
			case OpSext:
				x := a.args[0]
				sv := signExt(b.val, b.w)
				if sv == signExt(b.val&mask(x.w), x.w) {
					return tb.Eq(x, tb.Const(x.w, b.val))
				}
				return tb.False
			}
		}
		if a.op == OpAdd && b.op == OpAdd {
			if a.args[0] == b.args[0] {
				return tb.Eq(a.args[1], b.args[1])
			}
			if a.args[1] == b.args[1] {
				return tb.Eq(a.args[0], b.args[0])
			}
		}
		if a.op == OpIte && b.op == OpIte && a.args[0] == b.args[0] {
			return tb.Ite(a.args[0], tb.Eq(a.args[1], b.args[1]), tb.Eq(a.args[2], b.args[2]))
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tb.mk(OpEq, wBool, 0, "", a, b)
}

func (tb *TB) eqLeaf(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return tb.Bool(a.val == b.val)
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() && (b.val < a.lo || b.val > a.hi) {
		return tb.False
	}
	if b.op == OpIte && int64(a.size)*int64(b.size) > 2000 {
		if a.id > b.id {
			a, b = b, a
		}
		return tb.mk(OpEq, wBool, 0, "", a, b)
	}
	return tb.Ite(a.args[0], tb.eqLeaf(a.args[1], b), tb.eqLeaf(a.args[2], b))
}

// EqSeq compares sequences, joining neighbours that are parts of one word.
func (tb *TB) EqSeq(xs, ys []*Term) *Term {
	for i := range xs {
		if x, y := xs[i], ys[i]; x.isConst() && y.isConst() && x.val != y.val {
			return tb.False
		}
	}
	var ts []*Term
	for i := 0; i < len(xs); {
		x, y := xs[i], ys[i]
		i++
		if x == y {
			continue
		}
		for i < len(xs) && x.w+xs[i].w <= 64 && xs[i] != ys[i] && !xs[i].isBool() {
			nx, ny := tb.Concat(x, xs[i]), tb.Concat(y, ys[i])
			if nx.op == OpConcat || ny.op == OpConcat {
				break
			}
			x, y = nx, ny
			i++
		}
		t := tb.Eq(x, y)
		if t == tb.False {
			return t
		}
		ts = append(ts, t)
	}
	return tb.And(ts...)
}

// cuts collects the concat boundaries (bit offsets from the low end) of t.
func cuts(t *Term, set map[int16]bool) {
	if t.op == OpConcat {
		off := int16(0)
		for i := len(t.args) - 1; i >= 0; i-- {
			off += t.args[i].w
			set[off] = true
		}
	}
}

func (tb *TB) eqSplit(a, b *Term) *Term {
	set := map[int16]bool{a.w: true}
	cuts(a, set)
	cuts(b, set)
	if len(set) == 1 {
		if a.id > b.id {
			a, b = b, a
		}
		return tb.mk(OpEq, wBool, 0, "", a, b)
	}
	ps := sortedCuts(set)
	var cs []*Term
	lo := int16(0)
	for _, p := range ps {
		cs = append(cs, tb.Eq(tb.Extract(a, lo, p-lo), tb.Extract(b, lo, p-lo)))
		if cs[len(cs)-1] == tb.False {
			return tb.False
		}
		lo = p
	}
	return tb.And(cs...)
}

func sortedCuts(set map[int16]bool) []int16 {
	ps := make([]int16, 0, len(set))
	for p := range set {
		ps = append(ps, p)
	}
	sort.Slice(ps, func(i, j int) bool { return ps[i] < ps[j] })
	return ps
}

func signExt(v uint64, w int16) uint64 {
	if w >= 64 {
		return v
	}
	s := 64 - uint(w)
	return uint64(int64(v<<s) >> s)
}

// ---- bit-vector structure ----

func (tb *TB) Concat(parts ...*Term) *Term { // high to low
	var flat []*Term
	for _, p := range parts {
		if p.op == OpConcat {
			flat = append(flat, p.args...)
		} else {
			flat = append(flat, p)
		}
	}
	out := flat[:0:0]
	for _, p := range flat {
		if n := len(out); n > 0 {
			q := out[n-1]
			if q.isConst() && p.isConst() && q.w+p.w <= 64 {
				out[n-1] = tb.Const(q.w+p.w, q.val<<uint(p.w)|p.val)
				continue
			}
			// adjacent extracts of one term
			qb, ql := exBase(q)
			pb, pl := exBase(p)
			if qb == pb && ql == pl+p.w && (q.op == OpExtract || p.op == OpExtract) {
				out[n-1] = tb.Extract(qb, pl, q.w+p.w)
				continue
			}
			// the low part of a sum takes another form when extracted
			if q.op == OpExtract && ql >= p.w && !p.isConst() && p.op != OpVar && tb.Extract(qb, ql-p.w, p.w) == p {
				out[n-1] = tb.Extract(qb, ql-p.w, q.w+p.w)
				continue
			}
		}
		out = append(out, p)
	}
	if len(out) == 1 {
		return out[0]
	}
	w := int16(0)
	for _, p := range out {
		w += p.w
	}
	if w > 64 {
		panic("concat wider than 64")
	}
	return tb.mk(OpConcat, w, 0, "", out...)
}

func exBase(t *Term) (*Term, int16) {
	if t.op == OpExtract {
		return t.args[0], int16(t.val)
	}
	return t, 0
}

// Extract w bits of t starting at bit lo.
func (tb *TB) Extract(t *Term, lo, w int16) *Term {
	if lo == 0 && w == t.w {
		return t
	}
	switch t.op {
	case OpConst:
		return tb.Const(w, t.val>>uint(lo))
	case OpExtract:
		return tb.Extract(t.args[0], lo+int16(t.val), w)
	case OpConcat:
		var out []*Term
		off := t.w
		for _, p := range t.args { // high to low
			off -= p.w
			pl, ph := off, off+p.w
			l, h := max(pl, lo), min(ph, lo+w)
			if l < h {
				out = append(out, tb.Extract(p, l-pl, h-l))
			}
		}
		return tb.Concat(out...)
	case OpURem, OpUDiv:
		if k := int16(bits.Len64(t.hi)); k <= lo {
			return tb.Const(w, 0)
		} else if k < lo+w {
			return tb.Zext(tb.Extract(t, lo, k-lo), w)
		}
	case OpSext:
		x := t.args[0]
		if lo+w <= x.w {
			return tb.Extract(x, lo, w)
		}
		if lo == 0 {
			return tb.Sext(x, w)
		}
	case OpIte:
		if t.leaf || (t.args[1].isConst() || t.args[2].isConst()) {
			return tb.Ite(t.args[0], tb.Extract(t.args[1], lo, w), tb.Extract(t.args[2], lo, w))
		}
	case OpBAnd:
		return tb.BAnd(tb.Extract(t.args[0], lo, w), tb.Extract(t.args[1], lo, w))
	case OpBOr:
		return tb.BOr(tb.Extract(t.args[0], lo, w), tb.Extract(t.args[1], lo, w))
	case OpBXor:
		return tb.BXor(tb.Extract(t.args[0], lo, w), tb.Extract(t.args[1], lo, w))
	case OpAdd:
		if lo == 0 {
			return tb.Add(tb.Extract(t.args[0], 0, w), tb.Extract(t.args[1], 0, w))
		}
	case OpMul:
		if lo == 0 {
			return tb.Mul(tb.Extract(t.args[0], 0, w), tb.Extract(t.args[1], 0, w))
		}
	}
	if t.hi>>uint(lo) == 0 {
		return tb.Const(w, 0)
	}
	return tb.mk(OpExtract, w, uint64(lo), "", t)
}

func (tb *TB) Zext(t *Term, w int16) *Term {
	if w == t.w {
		return t
	}
	return tb.Concat(tb.Const(w-t.w, 0), t)
}

func (tb *TB) Sext(t *Term, w int16) *Term {
	if w == t.w {
		return t
	}
	if t.isConst() {
		return tb.Const(w, signExt(t.val, t.w))
	}
	if t.hi < uint64(1)<<uint(t.w-1) {
		return tb.Zext(t, w)
	}
	if t.op == OpSext {
		return tb.Sext(t.args[0], w)
	}
	if t.leaf {
		return tb.Ite(t.args[0], tb.Sext(t.args[1], w), tb.Sext(t.args[2], w))
	}
	return tb.mk(OpSext, w, 0, "", t)
}

// Resize converts between widths, sign- or zero-extending.
func (tb *TB) Resize(t *Term, w int16, signed bool) *Term {
	if w <= t.w {
		return tb.Extract(t, 0, w)
	}
	if signed {
		return tb.Sext(t, w)
	}
	return tb.Zext(t, w)
}

// constRuns adds the boundaries of runs of equal bits of a constant.
func constRuns(v uint64, w int16, set map[int16]bool) {
	for i := int16(1); i < w; i++ {
		if (v>>uint(i))&1 != (v>>uint(i-1))&1 {
			set[i] = true
		}
	}
}

func (tb *TB) bitwise(op Op, a, b *Term) *Term {
	w := a.w
	if a.w != b.w {
		panic("bitwise width mismatch")
	}
	m := mask(w)
	if a.isConst() && b.isConst() {
		switch op {
		case OpBAnd:
			return tb.Const(w, a.val&b.val)
		case OpBOr:
			return tb.Const(w, a.val|b.val)
		default:
			return tb.Const(w, a.val^b.val)
		}
	}
	if a.isConst() {
		a, b = b, a
	}
	if a == b {
		if op == OpBXor {
			return tb.Const(w, 0)
		}
		return a
	}
	if b.isConst() {
		switch {
		case b.val == 0:
			if op == OpBAnd {
				return b
			}
			return a
		case b.val == m && op == OpBAnd:
			return a
		case b.val == m && op == OpBOr:
			return b
		}
		if a.leaf {
			return tb.Ite(a.args[0], tb.bitwise(op, a.args[1], b), tb.bitwise(op, a.args[2], b))
		}
		if a.op == op && a.args[1].isConst() {
			return tb.bitwise(op, a.args[0], tb.bitwise(op, a.args[1], b))
		}
	}
	set := map[int16]bool{w: true}
	cuts(a, set)
	cuts(b, set)
	if b.isConst() && op != OpBXor {
		constRuns(b.val, w, set)
	}
	if len(set) > 1 && len(set) <= 17 {
		ps := sortedCuts(set)
		useful := false
		lo := int16(0)
		type seg struct{ x, y *Term }
		var segs []seg
		for _, p := range ps {
			x, y := tb.Extract(a, lo, p-lo), tb.Extract(b, lo, p-lo)
			segs = append(segs, seg{x, y})
			for _, z := range []*Term{x, y} {
				if z.isConst() && (z.val == 0 || (z.val == mask(z.w) && op != OpBXor)) {
					useful = true
				}
			}
			if x == y {
				useful = true
			}
			lo = p
		}
		if useful {
			out := make([]*Term, len(segs))
			for i, s := range segs {
				out[len(segs)-1-i] = tb.bitwise1(op, s.x, s.y)
			}
			return tb.Concat(out...)
		}
	}
	return tb.bitwise1(op, a, b)
}

// bitwise1 builds one segment without further splitting.
func (tb *TB) bitwise1(op Op, a, b *Term) *Term {
	w := a.w
	m := mask(w)
	if a.isConst() && b.isConst() {
		return tb.bitwise(op, a, b)
	}
	if a.isConst() {
		a, b = b, a
	}
	if a == b {
		if op == OpBXor {
			return tb.Const(w, 0)
		}
		return a
	}
	if b.isConst() {
		switch {
		case b.val == 0:
			if op == OpBAnd {
				return b
			}
			return a
		case b.val == m && op == OpBAnd:
			return a
		case b.val == m && op == OpBOr:
			return b
		}
	} else if a.id > b.id {
		a, b = b, a
	}
	return tb.mk(op, w, 0, "", a, b)
}

func (tb *TB) BAnd(a, b *Term) *Term { return tb.bitwise(OpBAnd, a, b) }
func (tb *TB) BOr(a, b *Term) *Term  { return tb.bitwise(OpBOr, a, b) }
func (tb *TB) BXor(a, b *Term) *Term { return tb.bitwise(OpBXor, a, b) }
func (tb *TB) BNot(a *Term) *Term    { return tb.BXor(a, tb.Const(a.w, ^uint64(0))) }

// ---- arithmetic ----

func (tb *TB) Add(a, b *Term) *Term {
	w := a.w
	if a.w != b.w {
		panic("Add width mismatch")
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if a.isConst() {
			return tb.Const(w, a.val+b.val)
		}
		if b.val == 0 {
			return a
		}
		if a.op == OpAdd && a.args[1].isConst() {
			return tb.Add(a.args[0], tb.Const(w, a.args[1].val+b.val))
		}
		if a.leaf {
			return tb.Ite(a.args[0], tb.Add(a.args[1], b), tb.Add(a.args[2], b))
		}
	} else {
		if a.op == OpAdd && a.args[1].isConst() {
			return tb.Add(tb.Add(a.args[0], b), a.args[1])
		}
		if b.op == OpAdd && b.args[1].isConst() {
			return tb.Add(tb.Add(a, b.args[0]), b.args[1])
		}
		// x + (-1*y) cancellation: (y + z) - y
		if n := negOf(b); n != nil {
			if n == a {
				return tb.Const(w, 0)
			}
			if a.op == OpAdd {
				if a.args[0] == n {
					return a.args[1]
				}
				if a.args[1] == n {
					return a.args[0]
				}
			}
		}
		if n := negOf(a); n != nil {
			if n == b {
				return tb.Const(w, 0)
			}
			if b.op == OpAdd {
				if b.args[0] == n {
					return b.args[1]
				}
				if b.args[1] == n {
					return b.args[0]
				}
			}
		}
	}
	if narrowable(a) && narrowable(b) {
		sum, c := bits.Add64(a.hi, b.hi, 0)
		if c == 0 && sum <= mask(w) {
			k := int16(bits.Len64(sum))
			if k < w && k > 0 {
				return tb.Zext(tb.addRaw(tb.Extract(a, 0, k), tb.Extract(b, 0, k)), w)
			}
		}
	}
	return tb.addRaw(a, b)
}

func (tb *TB) addRaw(a, b *Term) *Term {
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if a.isConst() {
			return tb.Const(a.w, a.val+b.val)
		}
		if b.val == 0 {
			return a
		}
	} else if a.id > b.id {
		a, b = b, a
	}
	return tb.mk(OpAdd, a.w, 0, "", a, b)
}

func negOf(t *Term) *Term {
	if t.op == OpMul && t.args[1].isConst() && t.args[1].val == mask(t.w) {
		return t.args[0]
	}
	return nil
}

func (tb *TB) Neg(a *Term) *Term { return tb.Mul(a, tb.Const(a.w, ^uint64(0))) }
func (tb *TB) Sub(a, b *Term) *Term {
	if b.isConst() {
		return tb.Add(a, tb.Const(a.w, -b.val))
	}
	if a == b {
		return tb.Const(a.w, 0)
	}
	if a.op == OpAdd {
		if a.args[0] == b {
			return a.args[1]
		}
		if a.args[1] == b {
			return a.args[0]
		}
	}
	// Subtracting one's own low bits clears them.
	if z, low := tb.zeroTop(b); low != nil && tb.Extract(a, 0, low.w) == low {
		return tb.Concat(tb.Extract(a, low.w, z), tb.Const(low.w, 0))
	}
	return tb.Add(a, tb.Neg(b))
}

// zeroTop splits a value extended with n zero bits.
func (tb *TB) zeroTop(t *Term) (n int16, low *Term) {
	if t.op == OpConcat && len(t.args) == 2 && t.args[0].isConst() && t.args[0].val == 0 {
		return t.args[0].w, t.args[1]
	}
	return 0, nil
}

func (tb *TB) Mul(a, b *Term) *Term {
	w := a.w
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if a.isConst() {
			return tb.Const(w, a.val*b.val)
		}
		switch {
		case b.val == 0:
			return b
		case b.val == 1:
			return a
		case bits.OnesCount64(b.val) == 1:
			return tb.Shl(a, tb.Const(w, uint64(bits.TrailingZeros64(b.val))))
		}
		if a.op == OpMul && a.args[1].isConst() {
			return tb.Mul(a.args[0], tb.Const(w, a.args[1].val*b.val))
		}
		if b.val == mask(w) { // negation distributes over add-with-const
			if a.op == OpAdd && a.args[1].isConst() {
				return tb.Add(tb.Neg(a.args[0]), tb.Neg(a.args[1]))
			}
		}
		if a.leaf {
			return tb.Ite(a.args[0], tb.Mul(a.args[1], b), tb.Mul(a.args[2], b))
		}
	}
	if narrowable(a) && narrowable(b) {
		h, p := bits.Mul64(a.hi, b.hi)
		if h == 0 && p <= mask(w) {
			k := int16(bits.Len64(p))
			if k < w && k > 0 {
				return tb.Zext(tb.mulRaw(tb.Extract(a, 0, k), tb.Extract(b, 0, k)), w)
			}
		}
	}
	return tb.mulRaw(a, b)
}

func (tb *TB) mulRaw(a, b *Term) *Term {
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		switch {
		case a.isConst():
			return tb.Const(a.w, a.val*b.val)
		case b.val == 0:
			return b
		case b.val == 1:
			return a
		case bits.OnesCount64(b.val) == 1:
			return tb.Shl(a, tb.Const(a.w, uint64(bits.TrailingZeros64(b.val))))
		}
	} else if a.id > b.id {
		a, b = b, a
	}
	return tb.mk(OpMul, a.w, 0, "", a, b)
}

func (tb *TB) UDiv(a, b *Term) *Term {
	w := a.w
	if b.isConst() && b.val != 0 {
		if a.isConst() {
			return tb.Const(w, a.val/b.val)
		}
		if bits.OnesCount64(b.val) == 1 {
			return tb.Lshr(a, tb.Const(w, uint64(bits.TrailingZeros64(b.val))))
		}
		if a.hi < b.val {
			return tb.Const(w, 0)
		}
		if a.leaf {
			return tb.Ite(a.args[0], tb.UDiv(a.args[1], b), tb.UDiv(a.args[2], b))
		}
	}
	if b.lo > 0 {
		k := int16(bits.Len64(max(a.hi, b.hi)))
		if k < w && k > 0 {
			return tb.Zext(tb.UDiv(tb.Extract(a, 0, k), tb.Extract(b, 0, k)), w)
		}
	}
	return tb.mk(OpUDiv, w, 0, "", a, b)
}

func (tb *TB) URem(a, b *Term) *Term {
	w := a.w
	if b.isConst() && b.val != 0 {
		if a.isConst() {
			return tb.Const(w, a.val%b.val)
		}
		if bits.OnesCount64(b.val) == 1 {
			k := int16(bits.TrailingZeros64(b.val))
			if k == 0 {
				return tb.Const(w, 0)
			}
			return tb.Zext(tb.Extract(a, 0, k), w)
		}
		if a.hi < b.val {
			return a
		}
		if s, key, f, c := tb.modSum(a, b.val); s != nil {
			if s != a && (s.isConst() || s.hi < b.val) {
				return tb.URem(s, b)
			}
			if key == "" {
				a = s
			} else {
				if tb.modBases == nil {
					tb.modBases = map[string]modBase{}
				}
				k := int16(bits.Len64(s.hi))
				r := tb.Zext(tb.mk(OpURem, k, 0, "", tb.Extract(s, 0, k), tb.Const(k, b.val)), w)
				tb.modBases[key] = modBase{r, f, c}
				return r
			}
		}
		if a.leaf {
			return tb.Ite(a.args[0], tb.URem(a.args[1], b), tb.URem(a.args[2], b))
		}
	}
	if b.lo > 0 {
		k := int16(bits.Len64(max(a.hi, b.hi)))
		if k < w && k > 0 {
			return tb.Zext(tb.URem(tb.Extract(a, 0, k), tb.Extract(b, 0, k)), w)
		}
	}
	return tb.mk(OpURem, w, 0, "", a, b)
}

func (tb *TB) SDiv(a, b *Term) *Term {
	w := a.w
	half := uint64(1) << uint(w-1)
	if a.hi < half && b.hi < half {
		return tb.UDiv(a, b)
	}
	if a.isConst() && b.isConst() && b.val != 0 {
		x, y := int64(signExt(a.val, w)), int64(signExt(b.val, w))
		if y == -1 {
			return tb.Const(w, uint64(-x))
		}
		return tb.Const(w, uint64(x/y))
	}
	return tb.mk(OpSDiv, w, 0, "", a, b)
}

func (tb *TB) SRem(a, b *Term) *Term {
	w := a.w
	half := uint64(1) << uint(w-1)
	if a.hi < half && b.hi < half {
		return tb.URem(a, b)
	}
	if a.isConst() && b.isConst() && b.val != 0 {
		x, y := int64(signExt(a.val, w)), int64(signExt(b.val, w))
		if y == -1 {
			return tb.Const(w, 0)
		}
		return tb.Const(w, uint64(x%y))
	}
	return tb.mk(OpSRem, w, 0, "", a, b)
}

func (tb *TB) Shl(a, n *Term) *Term { // n same width as a
	w := a.w
	if n.isConst() {
		if n.val >= uint64(w) {
			return tb.Const(w, 0)
		}
		k := int16(n.val)
		if k == 0 {
			return a
		}
		return tb.Concat(tb.Extract(a, 0, w-k), tb.Const(k, 0))
	}
	if a.isConst() && a.val == 0 {
		return a
	}
	if n.leaf {
		return tb.Ite(n.args[0], tb.Shl(a, n.args[1]), tb.Shl(a, n.args[2]))
	}
	return tb.mk(OpShl, w, 0, "", a, n)
}

func (tb *TB) Lshr(a, n *Term) *Term {
	w := a.w
	if n.isConst() {
		if n.val >= uint64(w) {
			return tb.Const(w, 0)
		}
		k := int16(n.val)
		if k == 0 {
			return a
		}
		return tb.Concat(tb.Const(k, 0), tb.Extract(a, k, w-k))
	}
	if a.isConst() && a.val == 0 {
		return a
	}
	if n.leaf {
		return tb.Ite(n.args[0], tb.Lshr(a, n.args[1]), tb.Lshr(a, n.args[2]))
	}
	return tb.mk(OpLshr, w, 0, "", a, n)
}

func (tb *TB) Ashr(a, n *Term) *Term {
	w := a.w
	if a.hi < uint64(1)<<uint(w-1) {
		return tb.Lshr(a, n)
	}
	if n.isConst() {
		k := n.val
		if k >= uint64(w) {
			k = uint64(w) - 1
		}
		if k == 0 {
			return a
		}
		return tb.Sext(tb.Extract(a, int16(k), w-int16(k)), w)
	}
	return tb.mk(OpAshr, w, 0, "", a, n)
}

func (tb *TB) Ult(a, b *Term) *Term {
	if a.w != b.w {
		panic("Ult width mismatch")
	}
	if a == b || b.hi == 0 {
		return tb.False
	}
	if a.hi < b.lo {
		return tb.True
	}
	if a.lo >= b.hi {
		return tb.False
	}
	if a.lo >= b.hi {
		return tb.False
	}
	if tb.below != nil && a.w <= 64 {
		if t := tb.tabulate(OpUlt, a, b); t != nil {
			return t
		}
	}
	if a.leaf && b.isConst() {
		return tb.Ite(a.args[0], tb.Ult(a.args[1], b), tb.Ult(a.args[2], b))
	}
	if b.leaf && a.isConst() {
		return tb.Ite(b.args[0], tb.Ult(a, b.args[1]), tb.Ult(a, b.args[2]))
	}
	if a.isConst() && a.val == 0 {
		return tb.Not(tb.Eq(b, a))
	}
	if b.isConst() && b.val == 1 {
		return tb.Eq(a, tb.Const(a.w, 0))
	}
	if a.isConst() && a.w <= 64 && a.val < mask(a.w) {
		return tb.Not(tb.Ult(b, tb.Const(a.w, a.val+1)))
	}
	if b.isConst() && a.op == OpAdd && a.args[1].isConst() && a.args[0].hi <= mask(a.w)-a.args[1].val {
		if b.val <= a.args[1].val {
			return tb.False
		}
		return tb.Ult(a.args[0], tb.Const(a.w, b.val-a.args[1].val))
	}
	if narrowable(a) && narrowable(b) {
		k := int16(bits.Len64(max(a.hi, b.hi)))
		if k < a.w && k > 0 {
			return tb.Ult(tb.Extract(a, 0, k), tb.Extract(b, 0, k))
		}
	}
	return tb.mk(OpUlt, wBool, 0, "", a, b)
}

func (tb *TB) Ule(a, b *Term) *Term { return tb.Not(tb.Ult(b, a)) }

func (tb *TB) Slt(a, b *Term) *Term {
	w := a.w
	half := uint64(1) << uint(w-1)
	if a.hi < half && b.hi < half {
		return tb.Ult(a, b)
	}
	if a.isConst() && b.isConst() {
		return tb.Bool(int64(signExt(a.val, w)) < int64(signExt(b.val, w)))
	}
	if a == b {
		return tb.False
	}
	// sign known to differ
	if a.lo >= half && b.hi < half {
		return tb.True
	}
	if a.hi < half && b.lo >= half {
		return tb.False
	}
	if b.isConst() && b.val == 0 && a.op == OpSext {
		return tb.Slt(a.args[0], tb.Const(a.args[0].w, 0))
	}
	if b.isConst() && b.val == 0 {
		return tb.Eq(tb.Extract(a, w-1, 1), tb.Const(1, 1))
	}
	if a.leaf && b.isConst() {
		return tb.Ite(a.args[0], tb.Slt(a.args[1], b), tb.Slt(a.args[2], b))
	}
	if b.leaf && a.isConst() {
		return tb.Ite(b.args[0], tb.Slt(a, b.args[1]), tb.Slt(a, b.args[2]))
	}
	return tb.mk(OpSlt, wBool, 0, "", a, b)
}

func (tb *TB) Sle(a, b *Term) *Term { return tb.Not(tb.Slt(b, a)) }

// BoolToBV gives a w-bit 0/1.
func (tb *TB) BoolToBV(c *Term, w int16) *Term {
	return tb.Ite(c, tb.Const(w, 1), tb.Const(w, 0))
}

// ---- floats ----

func fval(t *Term) float64 {
	if t.w == wF32 {
		return float64(math.Float32frombits(uint32(t.val)))
	}
	return math.Float64frombits(t.val)
}

func (tb *TB) Float(w int16, f float64) *Term {
	if w == wF32 {
		return tb.mk(OpConst, w, uint64(math.Float32bits(float32(f))), "")
	}
	return tb.mk(OpConst, w, math.Float64bits(f), "")
}

func fop(op Op, w int16, x, y float64) float64 {
	var r float64
	if w == wF32 {
		a, b := float32(x), float32(y)
		switch op {
		case OpFAdd:
			return float64(a + b)
		case OpFSub:
			return float64(a - b)
		case OpFMul:
			return float64(a * b)
		default:
			return float64(a / b)
		}
	}
	switch op {
	case OpFAdd:
		r = x + y
	case OpFSub:
		r = x - y
	case OpFMul:
		r = x * y
	default:
		r = x / y
	}
	return r
}

func (tb *TB) FBin(op Op, a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return tb.Float(a.w, fop(op, a.w, fval(a), fval(b)))
	}
	return tb.mk(op, a.w, 0, "", a, b)
}

func (tb *TB) FNeg(a *Term) *Term {
	if a.isConst() {
		return tb.Float(a.w, -fval(a))
	}
	return tb.mk(OpFNeg, a.w, 0, "", a)
}

func (tb *TB) FCmp(op Op, a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		x, y := fval(a), fval(b)
		switch op {
		case OpFLt:
			return tb.Bool(x < y)
		case OpFLe:
			return tb.Bool(x <= y)
		default:
			return tb.Bool(x == y)
		}
	}
	return tb.mk(op, wBool, 0, "", a, b)
}

func (tb *TB) FromInt(a *Term, w int16, signed bool) *Term {
	if a.isConst() {
		var f float64
		if signed {
			f = float64(int64(signExt(a.val, a.w)))
		} else {
			f = float64(a.val)
		}
		if w == wF32 {
			if signed {
				f = float64(float32(int64(signExt(a.val, a.w))))
			} else {
				f = float64(float32(a.val))
			}
		}
		return tb.Float(w, f)
	}
	if signed {
		return tb.mk(OpFFromS, w, 0, "", a)
	}
	return tb.mk(OpFFromU, w, 0, "", a)
}

func evFToInt(f float64, w int16, signed bool) uint64 {
	if signed {
		return uint64(int64(f)) & mask(w)
	}
	return uint64(f) & mask(w)
}

func (tb *TB) ToInt(a *Term, w int16, signed bool) *Term {
	if a.isConst() {
		return tb.Const(w, evFToInt(fval(a), w, signed))
	}
	if signed {
		return tb.mk(OpFToS, w, 0, "", a)
	}
	return tb.mk(OpFToU, w, 0, "", a)
}

func (tb *TB) FtoF(a *Term, w int16) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return tb.Float(w, fval(a))
	}
	return tb.mk(OpFToF, w, 0, "", a)
}
