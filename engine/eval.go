package main

// Evaluation of terms under a model, and SMT-LIB2 printing.

import (
	"fmt"
	"math"
	"strconv"
	"strings"
)

// Model assigns variables by name. Missing variables take their default.
type Model map[string]uint64

type evaluator struct {
	tb    *TB
	vals  []uint64
	stamp []int32
	epoch int32
	m     Model
	def   func(name string) uint64
}

func newEvaluator(tb *TB, def func(string) uint64) *evaluator {
	return &evaluator{tb: tb, def: def}
}

func (e *evaluator) reset(m Model) {
	e.epoch++
	e.m = m
}

func (e *evaluator) eval(t *Term) uint64 {
	if t.op == OpConst {
		return t.val
	}
	if int(t.id) >= len(e.stamp) {
		n := int(e.tb.next) + 1024
		ns := make([]int32, n)
		copy(ns, e.stamp)
		nv := make([]uint64, n)
		copy(nv, e.vals)
		e.stamp, e.vals = ns, nv
	}
	if e.stamp[t.id] == e.epoch {
		return e.vals[t.id]
	}
	v := e.eval1(t)
	if t.w > 0 {
		v &= mask(t.w)
	}
	e.stamp[t.id] = e.epoch
	e.vals[t.id] = v
	return v
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func fdec(v uint64, w int16) float64 {
	if w == wF32 {
		return float64(math.Float32frombits(uint32(v)))
	}
	return math.Float64frombits(v)
}

func fenc(f float64, w int16) uint64 {
	if w == wF32 {
		return uint64(math.Float32bits(float32(f)))
	}
	return math.Float64bits(f)
}

func (e *evaluator) eval1(t *Term) uint64 {
	a := t.args
	switch t.op {
	case OpVar:
		if v, ok := e.m[t.name]; ok {
			return v
		}
		return e.def(t.name)
	case OpNot:
		return 1 - e.eval(a[0])
	case OpAnd:
		for _, x := range a {
			if e.eval(x) == 0 {
				return 0
			}
		}
		return 1
	case OpOr:
		for _, x := range a {
			if e.eval(x) != 0 {
				return 1
			}
		}
		return 0
	case OpIte:
		if e.eval(a[0]) != 0 {
			return e.eval(a[1])
		}
		return e.eval(a[2])
	case OpEq:
		return b2u(e.eval(a[0]) == e.eval(a[1]))
	case OpAdd:
		return e.eval(a[0]) + e.eval(a[1])
	case OpMul:
		return e.eval(a[0]) * e.eval(a[1])
	case OpUDiv:
		x, y := e.eval(a[0]), e.eval(a[1])
		if y == 0 {
			return ^uint64(0)
		}
		return x / y
	case OpURem:
		x, y := e.eval(a[0]), e.eval(a[1])
		if y == 0 {
			return x
		}
		return x % y
	case OpSDiv:
		x, y := int64(signExt(e.eval(a[0]), t.w)), int64(signExt(e.eval(a[1]), t.w))
		if y == 0 {
			if x < 0 {
				return 1
			}
			return ^uint64(0)
		}
		if y == -1 {
			return uint64(-x)
		}
		return uint64(x / y)
	case OpSRem:
		x, y := int64(signExt(e.eval(a[0]), t.w)), int64(signExt(e.eval(a[1]), t.w))
		if y == 0 {
			return uint64(x)
		}
		if y == -1 {
			return 0
		}
		return uint64(x % y)
	case OpBAnd:
		return e.eval(a[0]) & e.eval(a[1])
	case OpBOr:
		return e.eval(a[0]) | e.eval(a[1])
	case OpBXor:
		return e.eval(a[0]) ^ e.eval(a[1])
	case OpShl:
		n := e.eval(a[1])
		if n >= 64 {
			return 0
		}
		return e.eval(a[0]) << n
	case OpLshr:
		n := e.eval(a[1])
		if n >= 64 {
			return 0
		}
		return e.eval(a[0]) >> n
	case OpAshr:
		n := e.eval(a[1])
		if n > 63 {
			n = 63
		}
		return uint64(int64(signExt(e.eval(a[0]), t.w)) >> n)
	case OpConcat:
		var v uint64
		for _, x := range a {
			v = v<<uint(x.w) | e.eval(x)
		}
		return v
	case OpExtract:
		return e.eval(a[0]) >> t.val
	case OpSext:
		return signExt(e.eval(a[0]), a[0].w)
	case OpUlt:
		return b2u(e.eval(a[0]) < e.eval(a[1]))
	case OpSlt:
		return b2u(int64(signExt(e.eval(a[0]), a[0].w)) < int64(signExt(e.eval(a[1]), a[1].w)))
	case OpFAdd, OpFSub, OpFMul, OpFDiv:
		return fenc(fop(t.op, t.w, fdec(e.eval(a[0]), t.w), fdec(e.eval(a[1]), t.w)), t.w)
	case OpFNeg:
		return fenc(-fdec(e.eval(a[0]), t.w), t.w)
	case OpFLt:
		return b2u(fdec(e.eval(a[0]), a[0].w) < fdec(e.eval(a[1]), a[0].w))
	case OpFLe:
		return b2u(fdec(e.eval(a[0]), a[0].w) <= fdec(e.eval(a[1]), a[0].w))
	case OpFEq:
		return b2u(fdec(e.eval(a[0]), a[0].w) == fdec(e.eval(a[1]), a[0].w))
	case OpFFromU:
		v := e.eval(a[0])
		if t.w == wF32 {
			return uint64(math.Float32bits(float32(v)))
		}
		return fenc(float64(v), t.w)
	case OpFFromS:
		v := int64(signExt(e.eval(a[0]), a[0].w))
		if t.w == wF32 {
			return uint64(math.Float32bits(float32(v)))
		}
		return fenc(float64(v), t.w)
	case OpFToU:
		return evFToInt(fdec(e.eval(a[0]), a[0].w), t.w, false)
	case OpFToS:
		return evFToInt(fdec(e.eval(a[0]), a[0].w), t.w, true)
	case OpFToF:
		return fenc(fdec(e.eval(a[0]), a[0].w), t.w)
	}
	panic(fmt.Sprintf("eval: op %d", t.op))
}

// ---- SMT-LIB ----

func sortOf(w int16) string {
	switch {
	case w == wBool:
		return "Bool"
	case w == wF64:
		return "(_ FloatingPoint 11 53)"
	case w == wF32:
		return "(_ FloatingPoint 8 24)"
	}
	return "(_ BitVec " + strconv.Itoa(int(w)) + ")"
}

func fpArgs(w int16) string {
	if w == wF32 {
		return "8 24"
	}
	return "11 53"
}

func constSMT(t *Term) string {
	switch {
	case t.w == wBool:
		if t.val != 0 {
			return "true"
		}
		return "false"
	case t.w > 0:
		if t.w%4 == 0 {
			return fmt.Sprintf("#x%0*x", int(t.w)/4, t.val)
		}
		return fmt.Sprintf("(_ bv%d %d)", t.val, t.w)
	case t.w == wF32:
		return fmt.Sprintf("((_ to_fp 8 24) #x%08x)", t.val)
	}
	return fmt.Sprintf("((_ to_fp 11 53) #x%016x)", t.val)
}

func refSMT(t *Term) string {
	switch t.op {
	case OpConst:
		return constSMT(t)
	case OpVar:
		return "|" + t.name + "|"
	}
	return "t" + strconv.Itoa(int(t.id))
}

var opNames = map[Op]string{
	OpNot: "not", OpAnd: "and", OpOr: "or", OpIte: "ite", OpEq: "=",
	OpAdd: "bvadd", OpMul: "bvmul", OpUDiv: "bvudiv", OpURem: "bvurem", OpSDiv: "bvsdiv", OpSRem: "bvsrem",
	OpBAnd: "bvand", OpBOr: "bvor", OpBXor: "bvxor", OpShl: "bvshl", OpLshr: "bvlshr", OpAshr: "bvashr",
	OpConcat: "concat", OpUlt: "bvult", OpSlt: "bvslt",
	OpFAdd: "fp.add RNE", OpFSub: "fp.sub RNE", OpFMul: "fp.mul RNE", OpFDiv: "fp.div RNE", OpFNeg: "fp.neg",
	OpFLt: "fp.lt", OpFLe: "fp.leq", OpFEq: "fp.eq",
}

// bodySMT prints the defining expression of a non-leaf term.
func bodySMT(t *Term) string {
	var sb strings.Builder
	sb.WriteByte('(')
	switch t.op {
	case OpExtract:
		fmt.Fprintf(&sb, "(_ extract %d %d)", int(t.val)+int(t.w)-1, t.val)
	case OpSext:
		fmt.Fprintf(&sb, "(_ sign_extend %d)", t.w-t.args[0].w)
	case OpFFromU:
		fmt.Fprintf(&sb, "(_ to_fp_unsigned %s) RNE", fpArgs(t.w))
	case OpFFromS, OpFToF:
		fmt.Fprintf(&sb, "(_ to_fp %s) RNE", fpArgs(t.w))
	case OpFToU:
		fmt.Fprintf(&sb, "(_ fp.to_ubv %d) RTZ", t.w)
	case OpFToS:
		fmt.Fprintf(&sb, "(_ fp.to_sbv %d) RTZ", t.w)
	default:
		sb.WriteString(opNames[t.op])
	}
	for _, a := range t.args {
		sb.WriteByte(' ')
		sb.WriteString(refSMT(a))
	}
	sb.WriteByte(')')
	return sb.String()
}
