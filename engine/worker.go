package main

// Workers, path execution and exploration.

import (
	"fmt"
	"go/token"
	"go/types"
	"math/rand"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type worker struct {
	eng       *engine
	tb        *TB
	sol       *Solver
	ev, ev2   *evaluator
	fns       map[*ssa.Function]*fn
	frozen    map[*ssa.Global]*value
	stdInit   map[*ssa.Package]bool
	globals   map[*ssa.Global]*value
	methods   map[methodKey]*ssa.Function
	depth     int
	nextCheck int64
	noFork    bool
	inexact   int    // inside the formatting of an error text
	forkAt    *frame // where a fork happens, for profiling
	pathState

	allocLimit int
	mapOrders  bool
	chain      *chain
	sched      *scheduler
	locks      map[*value]*lockState
	hashes     map[*value]*hashObj
}

type violationRec struct {
	Kind, Label string
	Inputs      []inputVal
	Where       string
	realized    bool
}

type pathSample struct {
	Inputs []inputVal
	Obs    []obsVal
	Reach  []string
	// partial marks a path the interpreter could not finish: only a native
	// failure on its witness counts.
	partial bool
}

type obsVal struct {
	Label string `json:"l"`
	Val   uint64 `json:"v"`
}

// engine explores one harness function.
type engine struct {
	prog           *ssa.Program
	fset           *token.FileSet
	runtimeErrType types.Type
	reflectType    types.Type
	reflectRtype   types.Type
	initOrder      []*ssa.Package
	redirect       map[*ssa.Function]*ssa.Function
	pkgs           map[string]*ssa.Package

	deadline  time.Time
	stepLimit int64
	harness   *ssa.Function
	thorough  bool
	seed      uint64
	solverTO  time.Duration

	mu       sync.Mutex
	cond     *sync.Cond
	queue    []*item
	active   int
	stopped  bool
	notes    map[string]int64
	incon    map[string]int64
	asserts  map[string]int64
	viols    map[string][]violationRec
	samples  []pathSample
	reach    map[string]int64
	fns      map[string]bool
	bounds   map[string]string
	paths    int64
	done     int64
	assumed  int64
	trans    int64
	steps    int64
	maxTrace int
	violN    int64
	partials int64
	timedOut bool
	tried    map[string]int // candidates already replayed
	pause    time.Time      // start no path after this
	queries  int64
	nanos    int64
	wall     time.Duration
	cut      int // paths ended by the deadline
	nObs     int64
	idealSet map[string]bool
}

func (e *engine) note(s string) {
	e.mu.Lock()
	e.notes[s]++
	e.mu.Unlock()
	debugf("note: %s", s)
}

func (e *engine) inconclusive(kind, msg string) {
	e.mu.Lock()
	k := kind + ": " + msg
	if e.incon[k] == 0 {
		debugf("inconclusive: %s", k)
	}
	e.incon[k]++
	e.mu.Unlock()
}

func (e *engine) countAssert(label string) {
	e.mu.Lock()
	e.asserts[label]++
	e.mu.Unlock()
}

func (e *engine) addTransitions(n int64) { atomic.AddInt64(&e.trans, n) }

func (e *engine) newWorker() *worker {
	w := &worker{eng: e}
	w.reset()
	return w
}

func (w *worker) reset() {
	if w.sol != nil {
		w.sol.Close()
	}
	w.tb = NewTB()
	w.sol = NewSolver(w.tb, w.eng.solverTO)
	w.ev = newEvaluator(w.tb, defVal)
	w.ev2 = newEvaluator(w.tb, defVal)
	w.fns = map[*ssa.Function]*fn{}
	w.frozen = map[*ssa.Global]*value{}
	w.stdInit = map[*ssa.Package]bool{}
	w.methods = map[methodKey]*ssa.Function{}
}

func (w *worker) pushItem(it *item) {
	e := w.eng
	e.mu.Lock()
	e.queue = append(e.queue, it)
	e.mu.Unlock()
	e.cond.Signal()
}

func (e *engine) explore(nw int) {
	if e.cond == nil {
		e.cond = sync.NewCond(&e.mu)
		e.queue = []*item{{model: Model{}}}
	}
	stop := make(chan bool)
	go func() {
		for {
			select {
			case <-stop:
				return
			case <-time.After(200 * time.Millisecond):
				if time.Now().After(e.deadline) {
					e.mu.Lock()
					e.stopped = true
					e.timedOut = true
					e.mu.Unlock()
				}
				e.cond.Broadcast()
			}
		}
	}()
	var wg sync.WaitGroup
	for i := 0; i < nw; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			w := e.newWorker()
			rnd := rand.New(rand.NewSource(int64(i)))
			defer func() { w.sol.Close() }()
			for {
				e.mu.Lock()
				for len(e.queue) == 0 && e.active > 0 && !e.stopped && !e.paused() {
					e.cond.Wait()
				}
				if e.stopped || len(e.queue) == 0 || e.paused() {
					e.mu.Unlock()
					e.cond.Broadcast()
					return
				}
				last := len(e.queue) - 1
				if i%4 == 3 {
					// One worker in four looks elsewhere than depth first.
					n := rnd.Intn(last + 1)
					e.queue[n], e.queue[last] = e.queue[last], e.queue[n]
				}
				it := e.queue[last]
				e.queue = e.queue[:last]
				e.active++
				e.mu.Unlock()
				w.runPath(it)
				if w.tb.size() > 2_000_000 {
					w.reset()
				}
				e.mu.Lock()
				e.active--
				e.mu.Unlock()
				e.cond.Broadcast()
			}
		}()
	}
	wg.Wait()
	close(stop)
	if e.left() == 0 {
		e.timedOut = false
	}
}

// left is the number of path prefixes not explored.
func (e *engine) left() int { return len(e.queue) + e.cut }

func (e *engine) paused() bool {
	return !e.pause.IsZero() && time.Now().After(e.pause)
}

// watch ends the exploration once a candidate is confirmed.
func (e *engine) watch(end chan bool, confirmed func(violationRec) bool) {
	for {
		select {
		case <-end:
			return
		case <-time.After(time.Second):
		}
		var todo []violationRec
		e.mu.Lock()
		for k, vs := range e.viols {
			todo = append(todo, vs[e.tried[k]:]...)
			e.tried[k] = len(vs)
		}
		e.mu.Unlock()
		for _, v := range todo {
			if confirmed(v) {
				e.mu.Lock()
				e.stopped, e.timedOut = true, true
				e.mu.Unlock()
				return
			}
		}
	}
}

func (w *worker) runPath(it *item) {
	e := w.eng
	w.tb.modBases = nil
	w.inexact = 0
	if w.tb.below != nil {
		w.tb.canon, w.tb.byTab = map[int32]*Term{}, map[string]*Term{}
	}
	w.pathState = pathState{
		known:   map[int32]bool{},
		subst:   map[*Term]*Term{},
		substM:  map[int32]*Term{},
		prefix:  it.prefix,
		nvar:    map[string]int{},
		appIdx:  map[string]*idealApp{},
		reach:   map[string]bool{},
		fnsSeen: map[*fn]bool{},
	}
	w.globals = map[*ssa.Global]*value{}
	w.locks = map[*value]*lockState{}
	w.hashes = map[*value]*hashObj{}
	w.depth, w.noFork, w.allocLimit, w.mapOrders, w.sched, w.chain = 0, false, -1, false, nil, nil
	w.nextCheck = stepCheck
	w.setModel(it.model)
	kind := w.execute(func() {
		w.initPath()
		w.call(nil, w.fn(e.harness), nil, nil)
	})
	if w.sched != nil {
		w.sched.kill()
	}
	atomic.AddInt64(&e.paths, 1)
	atomic.AddInt64(&e.steps, w.steps)
	if kind == "done" && len(w.trace) < len(w.prefix) {
		e.inconclusive("engine", "replayed path ended before its prefix")
		kind = "unsupported"
	}
	e.mu.Lock()
	if len(w.trace) > e.maxTrace {
		e.maxTrace = len(w.trace)
	}
	for f := range w.fnsSeen {
		e.fns[f.name] = true
	}
	for r := range w.reach {
		e.reach[r]++
	}
	for _, a := range w.apps {
		e.idealSet[a.kind] = true
	}
	n := e.done
	switch kind {
	case "done":
		e.done++
	case "assume":
		e.assumed++
	case "deadline":
		e.stopped, e.timedOut = true, true
		e.cut++
	}
	e.mu.Unlock()
	if kind == "done" && sampleThis(n) {
		w.sample(false)
	}
	if kind == "unsupported" && len(w.trace) >= len(w.prefix) && atomic.AddInt64(&e.partials, 1) <= 64 {
		w.sample(true)
	}
}

func sampleThis(n int64) bool {
	if n < 24 {
		return true
	}
	// thin out geometrically
	return n < 400 && n%16 == 0 || n < 4000 && n%128 == 0 || n%1024 == 0
}

// sample records a completed path for validation against the real code.
func (w *worker) sample(partial bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(pathEnd); !ok {
				panic(r)
			}
		}
	}()
	m, ok := w.realize(w.model)
	if !ok {
		return
	}
	w.ev2.reset(m)
	s := pathSample{Inputs: w.inputValues(m), partial: partial}
	w.ev2.reset(m)
	for _, o := range w.obs {
		s.Obs = append(s.Obs, obsVal{o.label, w.ev2.eval(o.t)})
	}
	for r := range w.reach {
		s.Reach = append(s.Reach, r)
	}
	sort.Strings(s.Reach)
	w.eng.mu.Lock()
	w.eng.samples = append(w.eng.samples, s)
	w.eng.mu.Unlock()
}

// execute runs f, classifying how the path ends.
func (w *worker) execute(f func()) (kind string) {
	e := w.eng
	kind = "done"
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		switch x := r.(type) {
		case pathEnd:
			kind = x.kind
			switch x.kind {
			case "unsupported":
				e.inconclusive("unsupported", x.msg+w.ctxText())
			case "steps":
				w.violationQuiet("hang", "does not terminate within the step bound: "+x.msg)
			case "deadline":
			}
		case *targetPanic:
			kind = "violation"
			w.violationQuiet("panic", x.msg)
			debugf("panic: %s at %s", x.msg, x.where)
		default:
			kind = "unsupported"
			msg := fmt.Sprint(r)
			if len(msg) > 300 {
				msg = msg[:300]
			}
			e.inconclusive("engine panic", msg)
			if verbose {
				fmt.Fprintf(os.Stderr, "engine panic: %v\n%s\n", r, debug.Stack())
			}
		}
	}()
	f()
	return
}

func (w *worker) ctxText() string {
	if w.ctx != "" {
		return " in " + w.ctx
	}
	return ""
}

func (w *worker) violationQuiet(kind, label string) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(pathEnd); !ok {
				panic(r)
			}
		}
	}()
	if len(w.trace) < len(w.prefix) {
		return
	}
	w.violation(kind, label, w.model)
}

const maxPerLabel = 6

func (w *worker) violation(kind, label string, m Model) {
	e := w.eng
	k := kind + ": " + label
	e.mu.Lock()
	e.violN++
	full := len(e.viols[k]) >= maxPerLabel
	e.mu.Unlock()
	if full {
		return
	}
	m2, ok := m, false
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, is := r.(pathEnd); !is {
					panic(r)
				}
			}
		}()
		m2, ok = w.realize(m)
	}()
	v := violationRec{Kind: kind, Label: label, Inputs: w.inputValues(m2), realized: ok}
	if verbose {
		debugf("candidate %s %q realized=%v inputs=%v", kind, label, ok, v.Inputs)
	}
	e.mu.Lock()
	e.viols[k] = append(e.viols[k], v)
	e.mu.Unlock()
}

func (w *worker) periodic() {
	w.nextCheck = w.steps + stepCheck
	if w.steps > w.eng.stepLimit {
		panic(pathEnd{"steps", "step limit"})
	}
	if w.eng.stopped || time.Now().After(w.eng.deadline) {
		panic(pathEnd{"deadline", ""})
	}
}

func hasPrefixAny(s string, ps ...string) bool {
	for _, p := range ps {
		if strings.HasPrefix(s, p) {
			return true
		}
	}
	return false
}
