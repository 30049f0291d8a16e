package main

// A linear integer abstraction of a bit-vector problem. Sums become integer sums
// with explicit wrap-around counters; whatever is not linear becomes a fresh
// unknown. Every bit-vector model is a model of the abstraction, so that only its
// unsat answers are used.

import (
	"fmt"
	"math/big"
	"strings"
)

type liaEnc struct {
	sb    strings.Builder
	ints  map[*Term]string
	bools map[*Term]string
	n     int
	tb    *TB
}

func liaScript(tb *TB, all []*Term) string {
	e := &liaEnc{tb: tb, ints: map[*Term]string{}, bools: map[*Term]string{}}
	var fs []string
	for _, t := range all {
		fs = append(fs, e.boolean(t))
	}
	for _, f := range fs {
		fmt.Fprintf(&e.sb, "(assert %s)\n", f)
	}
	return e.sb.String() + "(check-sat)\n"
}

func pow2(w int16) *big.Int { return new(big.Int).Lsh(big.NewInt(1), uint(w)) }

func (e *liaEnc) fresh(prefix, sort string) string {
	e.n++
	s := fmt.Sprintf("%s%d", prefix, e.n)
	fmt.Fprintf(&e.sb, "(declare-const %s %s)\n", s, sort)
	return s
}

func intLit(v *big.Int) string {
	if v.Sign() < 0 {
		return "(- " + new(big.Int).Neg(v).String() + ")"
	}
	return v.String()
}

// linear adds c*t to the combination.
func linear(t *Term, c *big.Int, m map[*Term]*big.Int, order *[]*Term, k *big.Int) {
	switch {
	case t.op == OpConst:
		k.Add(k, new(big.Int).Mul(c, signedConst(t)))
	case t.op == OpAdd:
		linear(t.args[0], c, m, order, k)
		linear(t.args[1], c, m, order, k)
	case t.op == OpMul && t.args[1].isConst():
		linear(t.args[0], new(big.Int).Mul(c, signedConst(t.args[1])), m, order, k)
	default:
		if m[t] == nil {
			m[t] = new(big.Int)
			*order = append(*order, t)
		}
		m[t].Add(m[t], c)
	}
}

func signedConst(t *Term) *big.Int {
	v := new(big.Int).SetUint64(t.val)
	if t.w <= 64 && t.val>>(uint(t.w)-1)&1 == 1 {
		v.Sub(v, pow2(t.w))
	}
	return v
}

func (e *liaEnc) ranged(t *Term) string {
	s := e.fresh("i", "Int")
	fmt.Fprintf(&e.sb, "(assert (and (<= %d %s) (<= %s %d)))\n", t.lo, s, s, t.hi)
	return s
}

func (e *liaEnc) integer(t *Term) string {
	if s, ok := e.ints[t]; ok {
		return s
	}
	s := e.integer1(t)
	e.ints[t] = s
	return s
}

func (e *liaEnc) integer1(t *Term) string {
	switch t.op {
	case OpConst:
		return fmt.Sprint(t.val)
	case OpIte:
		c, a, b := e.boolean(t.args[0]), e.integer(t.args[1]), e.integer(t.args[2])
		e.n++
		s := fmt.Sprintf("i%d", e.n)
		fmt.Fprintf(&e.sb, "(define-fun %s () Int (ite %s %s %s))\n", s, c, a, b)
		return s
	case OpConcat:
		var parts []string
		lo := int16(0)
		for i := len(t.args) - 1; i >= 0; i-- {
			a := t.args[i]
			if !a.isConst() || a.val != 0 {
				parts = append(parts, fmt.Sprintf("(* %s %s)", pow2(lo), e.integer(a)))
			}
			lo += a.w
		}
		if len(parts) == 0 {
			return "0"
		}
		s := e.ranged(t)
		fmt.Fprintf(&e.sb, "(assert (= %s (+ 0 %s)))\n", s, strings.Join(parts, " "))
		return s
	case OpAdd, OpMul:
		if t.op == OpMul && !t.args[1].isConst() {
			break
		}
		m := map[*Term]*big.Int{}
		var order []*Term
		k := new(big.Int)
		linear(t, big.NewInt(1), m, &order, k)
		// Reduce coefficients to the smallest representatives.
		mod := pow2(t.w)
		half := pow2(t.w - 1)
		norm := func(v *big.Int) *big.Int {
			v = new(big.Int).Mod(v, mod)
			if v.Cmp(half) >= 0 {
				v.Sub(v, mod)
			}
			return v
		}
		parts := []string{intLit(norm(k))}
		for _, x := range order {
			if c := norm(m[x]); c.Sign() != 0 {
				parts = append(parts, fmt.Sprintf("(* %s %s)", intLit(c), e.integer(x)))
			}
		}
		s := e.ranged(t)
		wrap := e.fresh("k", "Int")
		fmt.Fprintf(&e.sb, "(assert (= %s (+ %s (* (- %s) %s))))\n", s, strings.Join(parts, " "), mod, wrap)
		return s
	case OpURem:
		if d := t.args[1]; d.isConst() && d.val != 0 {
			// x = d*q + r
			tb := e.tb
			q := tb.UDiv(t.args[0], d)
			s := e.ranged(t)
			fmt.Fprintf(&e.sb, "(assert (< %s %d))\n", s, d.val)
			fmt.Fprintf(&e.sb, "(assert (= %s (+ (* %d %s) %s)))\n", e.integer(t.args[0]), d.val, e.integer(q), s)
			return s
		}
	case OpUDiv:
		if d := t.args[1]; d.isConst() && d.val != 0 {
			s := e.ranged(t)
			x := e.integer(t.args[0])
			fmt.Fprintf(&e.sb, "(assert (<= (* %d %s) %s))\n", d.val, s, x)
			fmt.Fprintf(&e.sb, "(assert (< %s (+ (* %d %s) %d)))\n", x, d.val, s, d.val)
			return s
		}
	case OpExtract:
		if t.val == 0 && t.args[0].hi <= mask(t.w) {
			return e.integer(t.args[0])
		}
		if x := t.args[0]; t.val == 0 && x.op == OpAdd && x.w > t.w {
			break
		}
	}
	return e.ranged(t)
}

func (e *liaEnc) boolean(t *Term) string {
	if s, ok := e.bools[t]; ok {
		return s
	}
	s := e.boolean1(t)
	if strings.HasPrefix(s, "(") {
		e.n++
		n := fmt.Sprintf("b%d", e.n)
		fmt.Fprintf(&e.sb, "(define-fun %s () Bool %s)\n", n, s)
		s = n
	}
	e.bools[t] = s
	return s
}

func (e *liaEnc) boolean1(t *Term) string {
	list := func(op string) string {
		var sb strings.Builder
		sb.WriteString("(" + op)
		for _, a := range t.args {
			sb.WriteString(" " + e.boolean(a))
		}
		return sb.String() + ")"
	}
	switch t.op {
	case OpConst:
		if t.val != 0 {
			return "true"
		}
		return "false"
	case OpNot:
		return list("not")
	case OpAnd:
		return list("and")
	case OpOr:
		return list("or")
	case OpIte:
		return list("ite")
	case OpEq:
		if t.args[0].isBool() {
			return list("=")
		}
		if t.args[0].w > 0 && t.args[0].w <= 64 {
			return fmt.Sprintf("(= %s %s)", e.integer(t.args[0]), e.integer(t.args[1]))
		}
	case OpUlt:
		if t.args[0].w <= 64 {
			return fmt.Sprintf("(< %s %s)", e.integer(t.args[0]), e.integer(t.args[1]))
		}
	}
	return e.fresh("b", "Bool")
}
