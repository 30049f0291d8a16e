package main

// Path state: decisions, path condition, model, idealised functions.

import (
	"fmt"
	"hash/fnv"
	"sort"
	"strings"
	"time"
)

type decision struct {
	kind  byte // 'b' branch, 'v' value, 'c' choose
	taken bool
	free  bool // forced: no constraint needed
	val   uint64
	step  int64
}

type item struct {
	prefix []decision
	model  Model
	alt    *Term // debugging
}

type input struct {
	Name string
	W    int16
	t    *Term
}

// idealApp is one application of an idealised (hash or signature) function.
type idealApp struct {
	kind   string // blake2b256, sha256, edpub, edsig
	in     []*Term
	out    []*Term // words
	inj    bool
	real   func(in []byte) []byte
	outLen int
}

type obs struct {
	label string
	t     *Term
}

type pathState struct {
	pc      []*Term
	known   map[int32]bool
	subst   map[*Term]*Term
	substM  map[int32]*Term
	model   Model
	prefix  []decision
	trace   []decision
	steps   int64
	inputs  []input
	nvar    map[string]int
	apps    []*idealApp
	appIdx  map[string]*idealApp
	reach   map[string]bool
	asserts int
	obs     []obs
	ctx     string
	evDirty bool
	fnsSeen map[*fn]bool
}

func defVal(name string) uint64 {
	if strings.HasPrefix(name, "ideal") {
		h := fnv.New64a()
		h.Write([]byte(name))
		v := h.Sum64()
		v ^= v >> 29
		v *= 0xbf58476d1ce4e5b9
		v ^= v >> 32
		return v | 1
	}
	return 0
}

func (w *worker) evalNow(t *Term) uint64 {
	if w.evDirty {
		w.ev.reset(w.model)
		w.evDirty = false
	}
	return w.ev.eval(t)
}

func (w *worker) setModel(m Model) {
	w.model = m
	w.evDirty = true
}

// substitute rewrites t using variable = constant facts of this path.
func (w *worker) substitute(t *Term) *Term {
	if len(w.subst) == 0 || t.op == OpConst {
		return t
	}
	if r, ok := w.subst[t]; ok {
		return r
	}
	if t.op == OpVar {
		return t
	}
	if r, ok := w.substM[t.id]; ok {
		return r
	}
	changed := false
	args := make([]*Term, len(t.args))
	for i, a := range t.args {
		args[i] = w.substitute(a)
		if args[i] != a {
			changed = true
		}
	}
	r := t
	if changed {
		r = w.tb.rebuild(t, args)
	}
	w.substM[t.id] = r
	return r
}

func (tb *TB) rebuild(t *Term, a []*Term) *Term {
	switch t.op {
	case OpNot:
		return tb.Not(a[0])
	case OpAnd:
		return tb.And(a...)
	case OpOr:
		return tb.Or(a...)
	case OpIte:
		return tb.Ite(a[0], a[1], a[2])
	case OpEq:
		return tb.Eq(a[0], a[1])
	case OpAdd:
		return tb.Add(a[0], a[1])
	case OpMul:
		return tb.Mul(a[0], a[1])
	case OpUDiv:
		return tb.UDiv(a[0], a[1])
	case OpURem:
		return tb.URem(a[0], a[1])
	case OpSDiv:
		return tb.SDiv(a[0], a[1])
	case OpSRem:
		return tb.SRem(a[0], a[1])
	case OpBAnd:
		return tb.BAnd(a[0], a[1])
	case OpBOr:
		return tb.BOr(a[0], a[1])
	case OpBXor:
		return tb.BXor(a[0], a[1])
	case OpShl:
		return tb.Shl(a[0], a[1])
	case OpLshr:
		return tb.Lshr(a[0], a[1])
	case OpAshr:
		return tb.Ashr(a[0], a[1])
	case OpConcat:
		return tb.Concat(a...)
	case OpExtract:
		return tb.Extract(a[0], int16(t.val), t.w)
	case OpSext:
		return tb.Sext(a[0], t.w)
	case OpUlt:
		return tb.Ult(a[0], a[1])
	case OpSlt:
		return tb.Slt(a[0], a[1])
	case OpFAdd, OpFSub, OpFMul, OpFDiv:
		return tb.FBin(t.op, a[0], a[1])
	case OpFNeg:
		return tb.FNeg(a[0])
	case OpFLt, OpFLe, OpFEq:
		return tb.FCmp(t.op, a[0], a[1])
	case OpFFromU:
		return tb.FromInt(a[0], t.w, false)
	case OpFFromS:
		return tb.FromInt(a[0], t.w, true)
	case OpFToU:
		return tb.ToInt(a[0], t.w, false)
	case OpFToS:
		return tb.ToInt(a[0], t.w, true)
	case OpFToF:
		return tb.FtoF(a[0], t.w)
	}
	return t
}

// learn records t as true on this path (facts only, no assertion).
func (w *worker) learn(t *Term) {
	switch t.op {
	case OpNot:
		w.known[t.args[0].id] = false
		if t.args[0].op == OpOr {
			for _, a := range t.args[0].args {
				w.learn(w.tb.Not(a))
			}
		}
		return
	case OpAnd:
		for _, a := range t.args {
			w.learn(a)
		}
	case OpEq:
		a, b := t.args[0], t.args[1]
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() && a.op == OpVar {
			if _, ok := w.subst[a]; !ok {
				w.subst[a] = b
				w.substM = map[int32]*Term{}
			}
		}
	case OpVar:
		if t.w == wBool {
			if _, ok := w.subst[t]; !ok {
				w.subst[t] = w.tb.True
				w.substM = map[int32]*Term{}
			}
		}
	}
	w.known[t.id] = true
}

// assertPC adds t to the path condition.
func (w *worker) assertPC(t *Term) {
	if t == w.tb.True {
		return
	}
	w.pc = append(w.pc, t)
	w.learn(t)
}

func (w *worker) knownTruth(c *Term) (bool, bool) {
	if c.isConst() {
		return c.val != 0, true
	}
	if c.op == OpNot {
		k, ok := w.known[c.args[0].id]
		return !k, ok
	}
	if k, ok := w.known[c.id]; ok {
		return k, true
	}
	return false, false
}

func (w *worker) decide(c *Term) (bool, bool) {
	if v, ok := w.knownTruth(c); ok {
		return v, true
	}
	if len(w.subst) > 0 {
		s := w.substitute(c)
		if s != c {
			if v, ok := w.knownTruth(s); ok {
				return v, true
			}
		}
	}
	return false, false
}

// check decides pc ∧ extra with the idealised-function lemmas refined in.
func (w *worker) check(extra *Term) (Result, Model) {
	if extra == w.tb.False {
		return Unsat, nil
	}
	if time.Now().After(w.eng.deadline) {
		panic(pathEnd{"deadline", ""})
	}
	ev := newEvaluatorShared(w.ev2)
	for round := 0; ; round++ {
		r, m := w.sol.Check(w.pc, extra)
		if r != Sat {
			return r, nil
		}
		lem := w.completeModel(m, ev)
		if len(lem) == 0 {
			ev.reset(m)
			for _, t := range w.pc {
				if ev.eval(t) == 0 {
					w.eng.note("engine: model does not satisfy path condition: " + bodySMT(t))
					return Unknown, nil
				}
			}
			if extra != nil && ev.eval(extra) == 0 {
				w.eng.note("engine: model does not satisfy query: " + bodySMT(extra))
				return Unknown, nil
			}
			return Sat, m
		}
		if round > 200 {
			return Unknown, nil
		}
		for _, l := range lem {
			if l == w.tb.False {
				return Unsat, nil
			}
			w.pc = append(w.pc, l)
		}
	}
}

func newEvaluatorShared(e *evaluator) *evaluator { return e }

// completeModel makes m respect functionality and injectivity of idealised
// functions, or returns violated instances of those axioms.
func (w *worker) completeModel(m Model, ev *evaluator) (lemmas []*Term) {
	if len(w.apps) == 0 {
		return nil
	}
	tb := w.tb
	for pass := 0; pass < 3; pass++ {
		changed := false
		ev.reset(m)
		byKey := map[string]*idealApp{}
		byOut := map[string]*idealApp{}
		for _, a := range w.apps {
			key := w.appKey(a, ev)
			if b := byKey[key]; b != nil {
				for i := range a.out {
					x, y := a.out[i], b.out[i]
					vx, vy := ev.eval(x), ev.eval(y)
					if vx == vy {
						continue
					}
					_, mx := m[x.name]
					_, my := m[y.name]
					switch {
					case x.op == OpVar && !mx:
						m[x.name] = vy
						changed = true
					case y.op == OpVar && !my:
						m[y.name] = vx
						changed = true
					default:
						lemmas = append(lemmas, tb.Implies(w.sameIn(a, b), w.sameOut(a, b, false)))
					}
					if changed {
						break
					}
				}
				if changed {
					break
				}
				continue
			}
			byKey[key] = a
			if a.inj {
				ok := fmt.Sprintf("%s/%x/%x/%x", a.kind, ev.eval(a.out[0]), ev.eval(a.out[1]), ev.eval(a.out[2])>>32)
				if b := byOut[ok]; b != nil {
					lemmas = append(lemmas, tb.Implies(w.sameOut(a, b, true), w.sameIn(a, b)))
				}
				byOut[ok] = a
				if ev.eval(a.out[0]) == 0 {
					lemmas = append(lemmas, tb.Not(tb.Eq(a.out[0], tb.Const(64, 0))))
				}
			}
		}
		if !changed {
			break
		}
		lemmas = nil
		pass = 0
	}
	return lemmas
}

func (w *worker) appKey(a *idealApp, ev *evaluator) string {
	b := make([]byte, 0, len(a.in)+16)
	b = append(b, a.kind...)
	b = append(b, ':')
	for _, t := range a.in {
		b = append(b, byte(ev.eval(t)))
	}
	return string(b)
}

func (w *worker) sameIn(a, b *idealApp) *Term {
	if len(a.in) != len(b.in) {
		return w.tb.False
	}
	return w.tb.EqSeq(a.in, b.in)
}

func (w *worker) sameOut(a, b *idealApp, trunc bool) *Term {
	var ts []*Term
	for i := range a.out {
		if trunc && i == 2 {
			ts = append(ts, w.tb.Eq(w.tb.Extract(a.out[i], 32, 32), w.tb.Extract(b.out[i], 32, 32)))
			break
		}
		ts = append(ts, w.tb.Eq(a.out[i], b.out[i]))
	}
	return w.tb.And(ts...)
}

// ideal applies an idealised function to bytes.
func (w *worker) ideal(kind string, in []*Term, outLen int, inj bool, real func([]byte) []byte) []*Term {
	var sb strings.Builder
	sb.WriteString(kind)
	conc := true
	for _, t := range in {
		fmt.Fprintf(&sb, ",%d", t.id)
		conc = conc && t.isConst()
	}
	key := sb.String()
	a := w.appIdx[key]
	if a == nil {
		a = &idealApp{kind: kind, in: append([]*Term(nil), in...), inj: inj, real: real, outLen: outLen}
		nw := outLen / 8
		if conc {
			buf := make([]byte, len(in))
			for i, t := range in {
				buf[i] = byte(t.val)
			}
			o := real(buf)
			for i := 0; i < nw; i++ {
				var v uint64
				for j := 0; j < 8; j++ {
					v = v<<8 | uint64(o[i*8+j])
				}
				a.out = append(a.out, w.tb.Const(64, v))
			}
		} else {
			k := len(w.apps)
			for i := 0; i < nw; i++ {
				a.out = append(a.out, w.tb.Var(fmt.Sprintf("ideal.%s.%d.%d", kind, k, i), 64))
			}
			// Keep the current model functional.
			if w.evDirty {
				w.ev.reset(w.model)
				w.evDirty = false
			}
			mk := w.appKey(a, w.ev)
			for _, b := range w.apps {
				if b.kind == kind && len(b.in) == len(a.in) && w.appKey(b, w.ev) == mk {
					m := make(Model, len(w.model)+nw)
					for k, v := range w.model {
						m[k] = v
					}
					for i := range a.out {
						if _, ok := m[a.out[i].name]; !ok {
							m[a.out[i].name] = w.evalNow(b.out[i])
						}
					}
					w.setModel(m)
					break
				}
			}
		}
		w.apps = append(w.apps, a)
		w.appIdx[key] = a
	}
	out := make([]*Term, 0, outLen)
	for _, o := range a.out {
		for j := 7; j >= 0; j-- {
			out = append(out, w.tb.Extract(o, int16(j*8), 8))
		}
	}
	return out
}

func (w *worker) pushAlt(d decision, m Model) {
	if forkProf != nil {
		w.profileFork(d)
	}
	p := make([]decision, len(w.trace)+1)
	copy(p, w.trace)
	p[len(w.trace)] = d
	w.pushItem(&item{prefix: p, model: m})
}

// branch decides a condition, forking when both sides are possible.
func (w *worker) branch(c *Term) bool {
	if v, ok := w.decide(c); ok {
		return v
	}
	if w.noFork {
		panic(specAbort{})
	}
	if i := len(w.trace); i < len(w.prefix) {
		d := w.prefix[i]
		if d.kind != 'b' || d.step != w.steps {
			panic(pathEnd{"unsupported", "engine: nondeterministic replay (branch)"})
		}
		w.trace = append(w.trace, d)
		t := c
		if !d.taken {
			t = w.tb.Not(c)
		}
		if d.free {
			w.learn(t)
		} else {
			w.assertPC(t)
		}
		return d.taken
	}
	side := w.evalNow(c) != 0
	t, f := c, w.tb.Not(c)
	if !side {
		t, f = f, t
	}
	w.eng.addTransitions(1)
	var res Result
	var m Model
	if w.tb.below != nil {
		m = w.guess(f)
	}
	if m != nil {
		res = Sat
	} else {
		res, m = w.check(f)
	}
	switch res {
	case Unsat:
		w.trace = append(w.trace, decision{step: w.steps, kind: 'b', taken: side, free: true})
		w.learn(t)
		return side
	case Sat:
		w.pushAlt(decision{step: w.steps, kind: 'b', taken: !side}, m)
	case Unknown:
		w.eng.inconclusive("solver", "solver gave no answer for a branch")
	}
	w.trace = append(w.trace, decision{step: w.steps, kind: 'b', taken: side})
	w.assertPC(t)
	return side
}

// concretize picks a concrete value for t, forking over all feasible ones.
func (w *worker) concretize(t *Term) *Term {
	t = w.substitute(t)
	if t.isConst() {
		return t
	}
	if w.noFork {
		panic(specAbort{})
	}
	for n := 0; ; n++ {
		if n > 5000 {
			panic(pathEnd{"unsupported", "too many values to enumerate"})
		}
		if i := len(w.trace); i < len(w.prefix) {
			d := w.prefix[i]
			if d.kind != 'v' || d.step != w.steps {
				panic(pathEnd{"unsupported", "engine: nondeterministic replay (value)"})
			}
			w.trace = append(w.trace, d)
			k := w.tb.Const(t.w, d.val)
			e := w.tb.Eq(t, k)
			if d.taken {
				if d.free {
					w.learn(e)
				} else {
					w.assertPC(e)
				}
				return k
			}
			w.assertPC(w.tb.Not(e))
			continue
		}
		v := w.evalNow(t)
		k := w.tb.Const(t.w, v)
		e := w.tb.Eq(t, k)
		w.eng.addTransitions(1)
		res, m := w.check(w.tb.Not(e))
		switch res {
		case Sat:
			w.pushAlt(decision{step: w.steps, kind: 'v', taken: false, val: v}, m)
		case Unknown:
			w.eng.inconclusive("solver", "solver gave no answer enumerating a value")
		}
		w.trace = append(w.trace, decision{step: w.steps, kind: 'v', taken: true, val: v, free: res == Unsat})
		if res == Unsat {
			w.learn(e)
		} else {
			w.assertPC(e)
		}
		return k
	}
}

// choose forks n ways without constraints.
func (w *worker) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if w.noFork {
		panic(specAbort{})
	}
	if i := len(w.trace); i < len(w.prefix) {
		d := w.prefix[i]
		if d.kind != 'c' || d.step != w.steps {
			panic(pathEnd{"unsupported", "engine: nondeterministic replay (choose)"})
		}
		w.trace = append(w.trace, d)
		return int(d.val)
	}
	w.eng.addTransitions(int64(n))
	for k := n - 1; k >= 1; k-- {
		w.pushAlt(decision{step: w.steps, kind: 'c', val: uint64(k)}, w.model)
	}
	w.trace = append(w.trace, decision{step: w.steps, kind: 'c', val: 0})
	return 0
}

func (w *worker) assume(c *Term) {
	if v, ok := w.decide(c); ok {
		if !v {
			panic(pathEnd{"assume", ""})
		}
		return
	}
	if w.evalNow(c) != 0 {
		w.assertPC(c)
		return
	}
	res, m := w.check(c)
	switch res {
	case Sat:
		w.setModel(m)
		w.assertPC(c)
	case Unsat:
		panic(pathEnd{"assume", ""})
	default:
		w.eng.inconclusive("solver", "solver gave no answer for an assumption")
		panic(pathEnd{"unknown", ""})
	}
}

// assert checks the property c on all inputs of this path.
func (w *worker) assert(c *Term, label string) {
	if len(w.trace) < len(w.prefix) {
		// Already decided on the parent path with the same path condition.
		if v, ok := w.decide(c); !ok || !v {
			w.assertPC(c)
		}
		return
	}
	w.asserts++
	w.eng.countAssert(label)
	if v, ok := w.decide(c); ok {
		if !v {
			w.violation("assert", label, w.model)
			panic(pathEnd{"violation", label})
		}
		return
	}
	nc := w.tb.Not(c)
	res, m := w.check(nc)
	switch res {
	case Unsat:
		w.learn(c)
		return
	case Sat:
		w.pcTmp(nc, func() { w.violation("assert", label, m) })
		// continue with the inputs for which it holds
		if w.evalNow(c) != 0 {
			w.assertPC(c)
			return
		}
		w.assume(c)
	default:
		w.eng.inconclusive("solver", "solver gave no answer for assertion "+label)
		if w.evalNow(c) != 0 {
			w.assertPC(c)
		} else {
			w.assume(c)
		}
	}
}

// pcTmp runs f with an extra conjunct in the path condition.
func (w *worker) pcTmp(c *Term, f func()) {
	w.pc = append(w.pc, c)
	f()
	// f may have appended lemmas; drop only c
	for i, t := range w.pc {
		if t == c {
			w.pc = append(w.pc[:i:i], w.pc[i+1:]...)
			break
		}
	}
}

// realize looks for a model in which idealised functions have their real
// values, so that the inputs replay against the real code.
func (w *worker) realize(m Model) (Model, bool) {
	if len(w.apps) == 0 {
		return m, true
	}
	ev := w.ev2
	for attempt := 0; attempt < 4; attempt++ {
		ok := true
		var cons []*Term
		ev.reset(m)
		for _, a := range w.apps {
			// Evaluate with outputs fixed so far.
			buf := make([]byte, len(a.in))
			for i, t := range a.in {
				buf[i] = byte(ev.eval(t))
			}
			o := a.real(buf)
			for i, t := range a.out {
				var v uint64
				for j := 0; j < 8; j++ {
					v = v<<8 | uint64(o[i*8+j])
				}
				if ev.eval(t) != v {
					ok = false
				}
			}
		}
		if ok {
			return m, true
		}
		// Fix applications one after another to concrete inputs.
		saved := len(w.pc)
		cur := m
		good := true
		for _, a := range w.apps {
			ev.reset(cur)
			buf := make([]byte, len(a.in))
			cons = cons[:0]
			for i, t := range a.in {
				buf[i] = byte(ev.eval(t))
				cons = append(cons, w.tb.Eq(t, w.tb.Const(8, uint64(buf[i]))))
			}
			o := a.real(buf)
			match := true
			for i, t := range a.out {
				var v uint64
				for j := 0; j < 8; j++ {
					v = v<<8 | uint64(o[i*8+j])
				}
				if ev.eval(t) != v {
					match = false
				}
				cons = append(cons, w.tb.Eq(t, w.tb.Const(64, v)))
			}
			c := w.tb.And(cons...)
			if c == w.tb.False {
				good = false
				break
			}
			w.pc = append(w.pc, c)
			if match {
				continue
			}
			r, m2 := w.sol.Check(w.pc, nil)
			if r != Sat {
				good = false
				break
			}
			cur = m2
		}
		w.pc = w.pc[:saved:saved]
		if good {
			return cur, true
		}
		// Another model: block these inputs of the first application.
		ev.reset(m)
		var blk []*Term
		for _, in := range w.inputs {
			if in.W > 0 && attempt < 3 {
				blk = append(blk, w.tb.Eq(in.t, w.tb.Const(in.W, ev.eval(in.t))))
			}
		}
		r, m2 := w.check(w.tb.Not(w.tb.And(blk...)))
		if r != Sat {
			return m, false
		}
		m = m2
	}
	return m, false
}

func (w *worker) inputValues(m Model) []inputVal {
	w.ev2.reset(m)
	out := make([]inputVal, 0, len(w.inputs))
	for _, in := range w.inputs {
		out = append(out, inputVal{in.Name, w.ev2.eval(in.t)})
	}
	return out
}

type inputVal struct {
	Name string `json:"n"`
	Val  uint64 `json:"v"`
}

func sortedKeys(m map[string]int64) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
