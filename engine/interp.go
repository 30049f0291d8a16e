package main

// The symbolic interpreter for go/ssa.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type specAbort struct{}

type opd struct {
	idx int32 // >=0 register, -1 constant, -2 global
	c   value
	g   *ssa.Global
}

type termKind uint8

const (
	tJump termKind = iota
	tIf
	tReturn
	tPanic
)

type phi struct {
	dst int32
	ops []opd // by predecessor index
}

type cblock struct {
	b     *ssa.BasicBlock
	phis  []phi
	code  []func(fr *frame)
	pure  []bool
	kind  termKind
	cond  opd
	res   []opd
	pv    opd
	succs []*cblock
	predI []int // for each succ: index of this block in succ.Preds
	ipdom *cblock
	pos   token.Pos
}

type fn struct {
	f        *ssa.Function
	name     string
	nregs    int
	nparams  int
	fvBase   int
	blocks   []*cblock
	recover  *cblock
	errText  bool // the text of an error
	hasDefer bool
	intr     intrinsic
	opt      func(w *worker, a []value) (value, bool)
	regOf    map[ssa.Value]int32
	repo     bool
}

type deferred struct {
	call func()
}

type frame struct {
	w         *worker
	fn        *fn
	caller    *frame
	regs      []value
	defers    []func()
	result    value
	panicking *targetPanic
	pos       token.Pos
}

type intrinsic func(fr *frame, args []value) value

func (fr *frame) get(o *opd) value {
	if o.idx >= 0 {
		return fr.regs[o.idx]
	}
	if o.idx == -1 {
		return o.c
	}
	return fr.w.globalAddr(o.g)
}

func (w *worker) throw(msg string) {
	panic(&targetPanic{v: iface{w.eng.runtimeErrType, str{s: msg}}, msg: msg, rt: true})
}

// ---- globals and package initialisation ----

func isHarnessOrRepo(path string) bool {
	return path == "terorie.dev/nimiq" || strings.HasPrefix(path, "terorie.dev/nimiq/") || strings.HasPrefix(path, "verif/")
}

func denyInit(path string) bool {
	switch path {
	case "runtime", "os", "syscall", "reflect", "unsafe", "time", "net", "sync", "sync/atomic", "os/signal", "testing", "embed", "crypto", "hash", "fmt", "log", "context", "io/fs", "path", "math/rand", "math/rand/v2", "crypto/rand":
		return true
	}
	return strings.HasPrefix(path, "internal/") && path != "internal/strconv" || strings.HasPrefix(path, "runtime/") || strings.HasPrefix(path, "crypto/") || strings.HasPrefix(path, "vendor/") || strings.HasPrefix(path, "golang.org/x/sys") || strings.HasPrefix(path, "golang.org/x/crypto")
}

func (w *worker) globalAddr(g *ssa.Global) *value {
	if p := w.globals[g]; p != nil {
		return p
	}
	if p := w.frozen[g]; p != nil {
		return p
	}
	et := g.Type().(*types.Pointer).Elem()
	path := g.Pkg.Pkg.Path()
	if isHarnessOrRepo(path) {
		p := new(value)
		*p = w.zero(et)
		w.globals[g] = p
		return p
	}
	if !w.stdInit[g.Pkg] {
		w.stdInit[g.Pkg] = true
		if !denyInit(path) {
			w.initStd(g.Pkg)
			if p := w.frozen[g]; p != nil {
				return p
			}
		}
	}
	p := new(value)
	*p = w.zero(et)
	w.frozen[g] = p
	if denyInit(path) && !strings.HasPrefix(path, "runtime") && !strings.HasPrefix(path, "internal/runtime") {
		w.sliceInit(g)
	}
	return p
}

func (w *worker) initStd(p *ssa.Package) {
	f := p.Func("init")
	if f == nil {
		return
	}
	saved, nf, sc, lim := w.steps, w.noFork, w.sched, w.allocLimit
	w.noFork, w.sched, w.allocLimit = false, nil, -1
	w.call(nil, w.fn(f), nil, nil)
	w.steps, w.noFork, w.sched, w.allocLimit = saved, nf, sc, lim
}

// initPath runs the initialisers of repository and harness packages.
func (w *worker) initPath() {
	for _, p := range w.eng.initOrder {
		if f := p.Func("init"); f != nil {
			w.call(nil, w.fn(f), nil, nil)
		}
	}
}

// ---- compilation ----

func (w *worker) fn(f *ssa.Function) *fn {
	if c := w.fns[f]; c != nil {
		return c
	}
	if t := w.eng.redirect[f]; t != nil {
		c := w.fn(t)
		w.fns[f] = c
		return c
	}
	c := &fn{f: f, name: f.String()}
	w.fns[f] = c
	if o := f.Origin(); o != nil {
		c.intr = lookupIntrinsic(o.String())
	}
	if c.intr == nil {
		c.intr = lookupIntrinsic(c.name)
	}
	c.opt = optTable[c.name]
	if s := f.Signature; f.Name() == "Error" && s.Recv() != nil && s.Params().Len() == 0 && s.Results().Len() == 1 {
		c.errText = true
	}
	pkg := f.Pkg
	if pkg == nil && f.Origin() != nil {
		pkg = f.Origin().Pkg
	}
	if pkg == nil && f.Parent() != nil {
		pkg = f.Parent().Pkg
	}
	if pkg != nil {
		c.repo = pkg.Pkg.Path() == "terorie.dev/nimiq" || strings.HasPrefix(pkg.Pkg.Path(), "terorie.dev/nimiq/")
	}
	if f.Name() == "init" && f.Synthetic == "package initializer" && c.intr == nil {
		// Other packages' initialisers are run by the engine.
	}
	if c.intr != nil || f.Blocks == nil {
		return c
	}
	w.compile(c)
	return c
}

func (w *worker) compile(c *fn) {
	f := c.f
	c.regOf = map[ssa.Value]int32{}
	n := int32(0)
	for _, p := range f.Params {
		c.regOf[p] = n
		n++
	}
	c.nparams = int(n)
	c.fvBase = int(n)
	for _, p := range f.FreeVars {
		c.regOf[p] = n
		n++
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				c.regOf[v] = n
				n++
			}
			if _, ok := in.(*ssa.Defer); ok {
				c.hasDefer = true
			}
		}
	}
	c.nregs = int(n)
	byB := map[*ssa.BasicBlock]*cblock{}
	for _, b := range f.Blocks {
		cb := &cblock{b: b}
		byB[b] = cb
		c.blocks = append(c.blocks, cb)
	}
	if f.Recover != nil {
		cb := byB[f.Recover]
		if cb == nil {
			cb = &cblock{b: f.Recover}
			byB[f.Recover] = cb
			for _, in := range f.Recover.Instrs {
				if v, ok := in.(ssa.Value); ok {
					c.regOf[v] = int32(c.nregs)
					c.nregs++
				}
			}
			w.compileBlock(c, cb, byB)
		}
		c.recover = cb
	}
	for _, cb := range c.blocks {
		w.compileBlock(c, cb, byB)
	}
	postdoms(c.blocks)
}

func (w *worker) opd(c *fn, v ssa.Value) opd {
	switch x := v.(type) {
	case *ssa.Const:
		return opd{idx: -1, c: w.constVal(x)}
	case *ssa.Global:
		return opd{idx: -2, g: x}
	case *ssa.Function:
		return opd{idx: -1, c: &closure{f: x}}
	case *ssa.Builtin:
		return opd{idx: -1, c: &closure{bi: x.Name()}}
	}
	i, ok := c.regOf[v]
	if !ok {
		panic("no register for " + v.String())
	}
	return opd{idx: i}
}

func (w *worker) constVal(c *ssa.Const) value {
	if c.Value == nil {
		if _, ok := c.Type().(*types.Tuple); ok {
			return nil
		}
		if tp, ok := c.Type().(*types.TypeParam); ok {
			return w.zero(tp.Underlying())
		}
		return w.zero(c.Type())
	}
	if b, ok := under(c.Type()).(*types.Basic); ok && b.Info()&types.IsString != 0 {
		if c.Value.Kind() == constant.String {
			return str{s: constant.StringVal(c.Value)}
		}
		return str{s: string(rune(c.Int64()))}
	}
	wd, _, ok := scalarWidth(c.Type())
	if !ok {
		return unsupportedConst{c.String()}
	}
	switch {
	case wd == wBool:
		return w.tb.Bool(constant.BoolVal(c.Value))
	case wd < 0:
		f, _ := constant.Float64Val(constant.ToFloat(c.Value))
		return w.tb.Float(wd, f)
	}
	iv := constant.ToInt(c.Value)
	if u, ok := constant.Uint64Val(iv); ok {
		return w.tb.Const(wd, u)
	}
	i, _ := constant.Int64Val(iv)
	return w.tb.Const(wd, uint64(i))
}

type unsupportedConst struct{ s string }

func postdoms(blocks []*cblock) {
	// Simple iterative post-dominator sets; functions are small.
	n := len(blocks)
	if n > 400 {
		return
	}
	idx := map[*cblock]int{}
	for i, b := range blocks {
		idx[b] = i
	}
	words := (n + 64) / 64
	pd := make([][]uint64, n)
	for i, b := range blocks {
		pd[i] = make([]uint64, words)
		if len(b.succs) == 0 {
			pd[i][i/64] |= 1 << (uint(i) % 64)
		} else {
			for j := range pd[i] {
				pd[i][j] = ^uint64(0)
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for i := n - 1; i >= 0; i-- {
			b := blocks[i]
			if len(b.succs) == 0 {
				continue
			}
			nw := make([]uint64, words)
			for j := range nw {
				nw[j] = ^uint64(0)
			}
			for _, s := range b.succs {
				for j := range nw {
					nw[j] &= pd[idx[s]][j]
				}
			}
			nw[i/64] |= 1 << (uint(i) % 64)
			for j := range nw {
				if nw[j] != pd[i][j] {
					changed = true
				}
			}
			pd[i] = nw
		}
	}
	has := func(i, j int) bool { return pd[i][j/64]&(1<<(uint(j)%64)) != 0 }
	count := func(i int) int {
		k := 0
		for j := 0; j < n; j++ {
			if has(i, j) {
				k++
			}
		}
		return k
	}
	for i, b := range blocks {
		if b.kind != tIf {
			continue
		}
		best, bc := -1, -1
		for j := 0; j < n; j++ {
			if j != i && has(i, j) {
				if c := count(j); c > bc {
					best, bc = j, c
				}
			}
		}
		if best >= 0 {
			b.ipdom = blocks[best]
		}
	}
}

func (w *worker) compileBlock(c *fn, cb *cblock, byB map[*ssa.BasicBlock]*cblock) {
	for _, s := range cb.b.Succs {
		cs := byB[s]
		cb.succs = append(cb.succs, cs)
	}
	for si, s := range cb.b.Succs {
		// index of cb in s.Preds, distinguishing duplicate edges
		want := 0
		for k := 0; k < si; k++ {
			if cb.b.Succs[k] == s {
				want++
			}
		}
		for pi, p := range s.Preds {
			if p == cb.b {
				if want == 0 {
					cb.predI = append(cb.predI, pi)
					break
				}
				want--
			}
		}
	}
	for _, in := range cb.b.Instrs {
		switch x := in.(type) {
		case *ssa.Phi:
			p := phi{dst: c.regOf[x]}
			for _, e := range x.Edges {
				p.ops = append(p.ops, w.opd(c, e))
			}
			cb.phis = append(cb.phis, p)
		case *ssa.Jump:
			cb.kind = tJump
		case *ssa.If:
			cb.kind = tIf
			cb.cond = w.opd(c, x.Cond)
			cb.pos = x.Cond.Pos()
		case *ssa.Return:
			cb.kind = tReturn
			for _, r := range x.Results {
				cb.res = append(cb.res, w.opd(c, r))
			}
		case *ssa.Panic:
			cb.kind = tPanic
			cb.pv = w.opd(c, x.X)
			cb.pos = x.Pos()
		case *ssa.DebugRef:
		default:
			f, pure := w.compileInstr(c, in)
			if f != nil {
				cb.code = append(cb.code, f)
				cb.pure = append(cb.pure, pure)
			}
		}
	}
}

// ---- execution ----

var errDepth = 400

func (w *worker) call(caller *frame, f *fn, args []value, env []value) value {
	if f.intr != nil {
		fr := caller
		if fr == nil {
			fr = &frame{w: w, fn: f}
		}
		return f.intr(fr, args)
	}
	if f.opt != nil {
		if r, ok := f.opt(w, args); ok {
			return r
		}
	}
	if f.f.Blocks == nil {
		panic(pathEnd{"unsupported", "no model for " + f.name})
	}
	if w.chain != nil && f.name == w.chain.name {
		if r, ok := w.chainCall(args); ok {
			return r
		}
	}
	if len(f.blocks) == 0 {
		w.compile(f)
	}
	if f.f.Synthetic == "package initializer" && caller != nil {
		return nil // initialisers of dependencies are scheduled by the engine
	}
	if f.repo && !w.fnsSeen[f] {
		w.fnsSeen[f] = true
	}
	if f.errText {
		// Texts of errors need not be exact.
		w.inexact++
		defer func() { w.inexact-- }()
	}
	w.depth++
	if w.depth > errDepth {
		w.depth = 0
		panic(pathEnd{"steps", "call depth exceeded in " + f.name})
	}
	fr := &frame{w: w, fn: f, caller: caller, regs: make([]value, f.nregs)}
	copy(fr.regs, args)
	copy(fr.regs[f.fvBase:], env)
	if f.hasDefer {
		fr.execDeferred()
	} else {
		fr.exec(f.blocks[0])
	}
	w.depth--
	return fr.result
}

func (fr *frame) execDeferred() {
	w := fr.w
	depth := w.depth
	done := false
	func() {
		defer func() {
			if done {
				return
			}
			r := recover()
			tp, ok := r.(*targetPanic)
			if !ok {
				panic(r)
			}
			w.depth = depth
			fr.panicking = tp
			fr.runDefers()
			if fr.panicking != nil {
				panic(fr.panicking)
			}
			if fr.fn.recover != nil {
				fr.exec(fr.fn.recover)
			} else {
				fr.result = w.zeroResult(fr.fn.f.Signature)
			}
		}()
		fr.exec(fr.fn.blocks[0])
		done = true
	}()
}

func (w *worker) zeroResult(sig *types.Signature) value {
	switch sig.Results().Len() {
	case 0:
		return nil
	case 1:
		return w.zero(sig.Results().At(0).Type())
	}
	return w.zero(sig.Results())
}

func (fr *frame) runDefers() {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			ok := false
			defer func() {
				if ok {
					return
				}
				r := recover()
				tp, isT := r.(*targetPanic)
				if !isT {
					panic(r)
				}
				fr.panicking = tp
			}()
			d()
			ok = true
		}()
	}
}

const stepCheck = 1 << 12

func (fr *frame) exec(b *cblock) {
	w := fr.w
	pred := -1
	for {
		w.steps += int64(len(b.code)) + 1
		if w.steps > w.nextCheck {
			w.periodic()
		}
		if len(b.phis) > 0 {
			if len(b.phis) == 1 {
				p := &b.phis[0]
				fr.regs[p.dst] = fr.get(&p.ops[pred])
			} else {
				var tmp [16]value
				vs := tmp[:0]
				for i := range b.phis {
					vs = append(vs, fr.get(&b.phis[i].ops[pred]))
				}
				for i := range b.phis {
					fr.regs[b.phis[i].dst] = vs[i]
				}
			}
		}
	body:
		for _, f := range b.code {
			f(fr)
		}
		switch b.kind {
		case tJump:
			pred = b.predI[0]
			b = b.succs[0]
		case tIf:
			c := fr.get(&b.cond).(*Term)
			if !c.isConst() {
				if v, ok := w.decide(c); ok {
					c = w.tb.Bool(v)
				} else if b.ipdom != nil && w.noFork == false && w.ifConvert(fr, b, c) {
					// phis of the join already set
					b = b.ipdom
					w.steps += int64(len(b.code)) + 1
					goto body
				} else {
					fr.pos = b.pos
					if forkProf != nil {
						w.forkAt = fr
					}
					c = w.tb.Bool(w.branch(c))
					w.forkAt = nil
				}
			}
			k := 0
			if c.val == 0 {
				k = 1
			}
			pred = b.predI[k]
			b = b.succs[k]
		case tReturn:
			switch len(b.res) {
			case 0:
			case 1:
				fr.result = fr.get(&b.res[0])
			default:
				t := make(tuple, len(b.res))
				for i := range t {
					t[i] = fr.get(&b.res[i])
				}
				fr.result = t
			}
			return
		case tPanic:
			v := fr.get(&b.pv).(iface)
			panic(&targetPanic{v: v, msg: w.panicText(v), where: w.where(fr, b.pos)})
		}
	}
}

func (w *worker) where(fr *frame, pos token.Pos) string {
	return fr.fn.name + " " + w.eng.fset.Position(pos).String()
}

func (w *worker) panicText(v iface) string {
	if v.t == nil {
		return "nil"
	}
	if s, ok := v.v.(str); ok {
		if s.b == nil {
			return s.s
		}
		return "<symbolic string>"
	}
	return v.t.String()
}

// ---- if-conversion ----

type reachEdge struct {
	guard *Term
	pred  int
}

// ifConvert executes the pure acyclic region between b and its immediate
// post-dominator on both sides and merges the join's phis.
func (w *worker) ifConvert(fr *frame, b *cblock, c *Term) (ok bool) {
	j := b.ipdom
	if !regionPure(b, j) {
		return false
	}
	saved := append([]value(nil), fr.regs...)
	w.noFork = true
	var edges []reachEdge
	var vals [][]value
	visited := map[*cblock]bool{}
	budget := 400
	defer func() {
		w.noFork = false
		if r := recover(); r != nil {
			if _, is := r.(specAbort); is {
				copy(fr.regs, saved)
				ok = false
				return
			}
			if _, is := r.(*targetPanic); is {
				copy(fr.regs, saved)
				ok = false
				return
			}
			panic(r)
		}
	}()
	var run func(cb *cblock, pred int, g *Term)
	step := func(from *cblock, k int, g *Term, run func(*cblock, int, *Term)) {
		if g == w.tb.False {
			return
		}
		to, pi := from.succs[k], from.predI[k]
		if to == j {
			row := make([]value, len(j.phis))
			for i := range j.phis {
				row[i] = fr.get(&j.phis[i].ops[pi])
			}
			edges = append(edges, reachEdge{g, pi})
			vals = append(vals, row)
			return
		}
		run(to, pi, g)
	}
	run = func(cb *cblock, pred int, g *Term) {
		if visited[cb] && (len(cb.code) > 0 || len(cb.phis) > 0) {
			panic(specAbort{})
		}
		visited[cb] = true
		budget -= len(cb.code) + 1
		if budget < 0 {
			panic(specAbort{})
		}
		if len(cb.phis) > 0 {
			vs := make([]value, len(cb.phis))
			for i := range cb.phis {
				vs[i] = fr.get(&cb.phis[i].ops[pred])
			}
			for i := range cb.phis {
				fr.regs[cb.phis[i].dst] = vs[i]
			}
		}
		for _, f := range cb.code {
			f(fr)
		}
		switch cb.kind {
		case tJump:
			step(cb, 0, g, run)
		case tIf:
			c := fr.get(&cb.cond).(*Term)
			if v, ok := w.decide(c); ok {
				c = w.tb.Bool(v)
			}
			step(cb, 0, w.tb.And(g, c), run)
			step(cb, 1, w.tb.And(g, w.tb.Not(c)), run)
		default:
			panic(specAbort{})
		}
	}
	step(b, 0, c, run)
	step(b, 1, w.tb.Not(c), run)
	if len(edges) == 0 || len(edges) > 24 {
		panic(specAbort{})
	}
	merged := make([]value, len(j.phis))
	for i := range j.phis {
		v := vals[len(vals)-1][i]
		for k := len(vals) - 2; k >= 0; k-- {
			v = w.merge(edges[k].guard, vals[k][i], v)
		}
		merged[i] = v
	}
	for i := range j.phis {
		fr.regs[j.phis[i].dst] = merged[i]
	}
	return true
}

func (w *worker) merge(g *Term, a, b value) value {
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		if !ok {
			panic(specAbort{})
		}
		if x == y {
			return x
		}
		if x.w < 0 {
			panic(specAbort{})
		}
		return w.tb.Ite(g, x, y)
	case *value:
		if y, ok := b.(*value); ok && x == y {
			return x
		}
	case str:
		if y, ok := b.(str); ok {
			if x.b == nil && y.b == nil && x.s == y.s {
				return x
			}
		}
	case iface:
		if y, ok := b.(iface); ok && x.t == nil && y.t == nil {
			return x
		}
	case []value:
		if y, ok := b.([]value); ok {
			if x == nil && y == nil {
				return x
			}
			if len(x) == len(y) && cap(x) == cap(y) && len(x) > 0 && &x[0] == &y[0] {
				return x
			}
		}
	}
	panic(specAbort{})
}

func regionPure(b, j *cblock) bool {
	seen := map[*cblock]bool{b: true}
	var visit func(x *cblock) bool
	n := 0
	visit = func(x *cblock) bool {
		if x == j {
			return true
		}
		if seen[x] {
			return x != b
		}
		seen[x] = true
		n++
		if n > 24 {
			return false
		}
		if x.kind != tJump && x.kind != tIf {
			return false
		}
		for _, p := range x.pure {
			if !p {
				return false
			}
		}
		for _, s := range x.succs {
			if !visit(s) {
				return false
			}
		}
		return true
	}
	for _, s := range b.succs {
		if !visit(s) {
			return false
		}
	}
	// no back edges inside the region
	state := map[*cblock]int{}
	var cyc func(x *cblock) bool
	cyc = func(x *cblock) bool {
		if x == j {
			return false
		}
		if state[x] == 1 {
			return true
		}
		if state[x] == 2 {
			return false
		}
		state[x] = 1
		for _, s := range x.succs {
			if cyc(s) {
				return true
			}
		}
		state[x] = 2
		return false
	}
	return !cyc(b)
}

// ---- loads and stores ----

func (w *worker) load(p value) value {
	switch x := p.(type) {
	case *value:
		if x == nil {
			w.throw("invalid memory address or nil pointer dereference")
		}
		if w.sched != nil {
			w.raceAccess(x, false)
		}
		return copyVal(*x)
	case symPtr:
		return w.tableRead(x.elems, x.idx)
	case unsafePtr:
		return w.load(x.p)
	}
	panic(pathEnd{"unsupported", fmt.Sprintf("load through %T", p)})
}

func (w *worker) store(p value, v value) {
	if w.noFork {
		panic(specAbort{})
	}
	switch x := p.(type) {
	case *value:
		if x == nil {
			w.throw("invalid memory address or nil pointer dereference")
		}
		if w.sched != nil {
			w.raceAccess(x, true)
		}
		storeCell(x, v)
		return
	case symPtr:
		nv := v.(*Term)
		for i := range x.elems {
			c := w.tb.Eq(x.idx, w.tb.Const(x.idx.w, uint64(i)))
			if c == w.tb.False {
				continue
			}
			x.elems[i] = w.tb.Ite(c, nv, x.elems[i].(*Term))
		}
		return
	case unsafePtr:
		w.store(x.p, v)
		return
	}
	panic(pathEnd{"unsupported", fmt.Sprintf("store through %T", p)})
}

// tableRead reads elems[idx] for a symbolic in-range idx.
func (w *worker) tableRead(elems []value, idx *Term) *Term {
	ts := make([]*Term, len(elems))
	for i, e := range elems {
		ts[i] = e.(*Term)
	}
	return w.table(ts, idx)
}

// table builds elems[idx], using constant and affine runs.
func (w *worker) table(ts []*Term, idx *Term) *Term {
	tb := w.tb
	lo, hi := idx.lo, idx.hi
	if hi >= uint64(len(ts)) {
		hi = uint64(len(ts) - 1)
	}
	if lo > hi {
		lo = hi
	}
	type run struct {
		lo, hi uint64
		t      *Term
	}
	var runs []run
	ew := ts[0].w
	for i := lo; i <= hi; {
		t := ts[i]
		j := i + 1
		for j <= hi && ts[j] == t {
			j++
		}
		val := t
		if t.isConst() && ew > 0 {
			k := i + 1
			for k <= hi && ts[k].isConst() && ts[k].val == (t.val+(k-i))&mask(ew) {
				k++
			}
			if k > j && k-i > 2 {
				j = k
				val = tb.Add(tb.Resize(idx, ew, false), tb.Const(ew, t.val-i))
			}
		}
		runs = append(runs, run{i, j - 1, val})
		i = j
	}
	res := runs[len(runs)-1].t
	for k := len(runs) - 2; k >= 0; k-- {
		r := runs[k]
		res = tb.Ite(tb.Ult(tb.Const(idx.w, r.hi), idx), res, r.t)
	}
	return res
}

// boundsCheck verifies 0 <= idx < n, panicking in the target otherwise.
func (w *worker) boundsCheck(idx *Term, n int, signed bool) {
	if idx.isConst() {
		v := signExt(idx.val, idx.w)
		if !signed {
			v = idx.val
		}
		if v >= uint64(n) {
			w.throw(fmt.Sprintf("index out of range [%d] with length %d", int64(v), n))
		}
		return
	}
	var ok *Term
	if idx.w < 64 && uint64(n) > mask(idx.w) {
		if signed {
			ok = w.tb.Not(w.tb.Slt(idx, w.tb.Const(idx.w, 0)))
		} else {
			return
		}
	} else {
		ok = w.tb.Ult(idx, w.tb.Const(idx.w, uint64(n)))
	}
	if !w.branch(ok) {
		w.throw(fmt.Sprintf("index out of range with length %d", n))
	}
}

func isSigned(t types.Type) bool {
	_, s, _ := scalarWidth(t)
	return s
}

func (w *worker) constInt(v value) (int, bool) {
	t := v.(*Term)
	if t.isConst() {
		return int(int64(signExt(t.val, t.w))), true
	}
	return 0, false
}

// intOf concretises an integer.
func (w *worker) intOf(v value, signed bool) int64 {
	t := w.concretize(v.(*Term))
	if signed {
		return int64(signExt(t.val, t.w))
	}
	return int64(t.val)
}

func (fr *frame) setPos(p token.Pos) { fr.pos = p }

func debugf(f string, a ...interface{}) {
	if verbose {
		fmt.Fprintf(os.Stderr, f+"\n", a...)
	}
}
