package main

// Goroutines, synchronisation and happens-before race detection.

import (
	"go/types"
)

type lockState struct {
	held    bool
	readers int
	vc      []int
	n       int64 // WaitGroup counter
	pool    []value
}

type gor struct {
	id    int
	wake  chan bool
	done  bool
	ready func() bool // nil: runnable
	vc    []int
	depth int
}

type access struct {
	g, c int
}

type cellState struct {
	w  access
	hw bool
	r  []access
}

type scheduler struct {
	w     *worker
	gs    []*gor
	cur   *gor
	fatal interface{}
	dead  bool
	cells map[*value]*cellState
	maps  map[*mapv]*cellState
	join  chan bool
}

func vcJoin(a, b []int) []int {
	n := max(len(a), len(b))
	out := make([]int, n)
	copy(out, a)
	for i, v := range b {
		out[i] = max(out[i], v)
	}
	return out
}

func vcAt(v []int, i int) int {
	if i < len(v) {
		return v[i]
	}
	return 0
}

func (g *gor) tick() {
	for len(g.vc) <= g.id {
		g.vc = append(g.vc, 0)
	}
	g.vc[g.id]++
}

func (w *worker) lock(p value) *lockState {
	c, ok := p.(*value)
	if !ok || c == nil {
		w.throw("invalid memory address or nil pointer dereference")
	}
	l := w.locks[c]
	if l == nil {
		l = &lockState{}
		w.locks[c] = l
	}
	return l
}

func (w *worker) goStmt(fr *frame, cl *closure, args []value) {
	if w.noFork {
		panic(specAbort{})
	}
	s := w.sched
	if s == nil {
		s = &scheduler{w: w, cells: map[*value]*cellState{}, maps: map[*mapv]*cellState{}}
		g0 := &gor{id: 0, wake: make(chan bool, 1)}
		g0.tick()
		s.gs = []*gor{g0}
		s.cur = g0
		w.sched = s
	}
	if len(s.gs) > 6 {
		panic(pathEnd{"unsupported", "too many goroutines"})
	}
	g := &gor{id: len(s.gs), wake: make(chan bool, 1), vc: append([]int(nil), s.cur.vc...)}
	g.tick()
	s.cur.tick()
	s.gs = append(s.gs, g)
	go func() {
		if !<-g.wake || s.dead {
			g.done = true
			return
		}
		defer func() {
			r := recover()
			g.done = true
			if pe, ok := r.(pathEnd); ok && pe.kind == "killed" {
				return
			}
			if s.dead {
				return
			}
			if r != nil {
				s.fatal = r
				s.switchTo(s.gs[0])
				return
			}
			n := s.pick(false)
			if n == nil {
				s.fatal = pathEnd{"deadlock", ""}
				n = s.gs[0]
			}
			s.switchTo(n)
		}()
		w.depth = 0
		w.callValue(&frame{w: w, fn: &fn{name: "go"}}, cl, args)
	}()
}

// switchTo hands the baton to g without waiting.
func (s *scheduler) switchTo(g *gor) {
	s.cur = g
	s.w.depth = g.depth
	s.w.noFork = false
	g.wake <- true
}

func (s *scheduler) park(me *gor) {
	if !<-me.wake || s.dead {
		panic(pathEnd{"killed", ""})
	}
	if s.fatal != nil && me.id == 0 {
		f := s.fatal
		s.fatal = nil
		if pe, ok := f.(pathEnd); ok && pe.kind == "deadlock" {
			s.deadlock()
		}
		panic(f)
	}
}

func (s *scheduler) deadlock() {
	panic(&targetPanic{v: iface{}, msg: "all goroutines are asleep - deadlock!"})
}

func (s *scheduler) runnable() []*gor {
	var out []*gor
	for _, g := range s.gs {
		if !g.done && (g.ready == nil || g.ready()) {
			out = append(out, g)
		}
	}
	return out
}

// pick chooses the next goroutine to run; the current one first.
func (s *scheduler) pick(preferCur bool) *gor {
	rs := s.runnable()
	if len(rs) == 0 {
		return nil
	}
	if preferCur {
		for i, g := range rs {
			if g == s.cur {
				rs[0], rs[i] = rs[i], rs[0]
			}
		}
	}
	return rs[s.w.choose(len(rs))]
}

// yield is a scheduling point.
func (w *worker) yield() {
	s := w.sched
	if s == nil {
		return
	}
	me := s.cur
	me.depth = w.depth
	n := s.pick(true)
	if n == nil || n == me {
		return
	}
	s.switchTo(n)
	s.park(me)
}

// wait blocks until cond holds.
func (w *worker) wait(cond func() bool, what string) {
	if w.noFork {
		panic(specAbort{})
	}
	if cond() {
		return
	}
	s := w.sched
	if s == nil {
		panic(&targetPanic{v: iface{}, msg: "all goroutines are asleep - deadlock! (" + what + ")"})
	}
	me := s.cur
	me.depth = w.depth
	me.ready = cond
	n := s.pick(false)
	if n == nil {
		s.deadlock()
	}
	if n != me {
		s.switchTo(n)
		s.park(me)
	}
	me.ready = nil
}

func (s *scheduler) kill() {
	s.dead = true
	for _, g := range s.gs[1:] {
		if !g.done {
			select {
			case g.wake <- false:
			default:
			}
		}
	}
}

func (w *worker) race(what string) {
	w.violation("race", "data race on "+what, w.model)
	panic(pathEnd{"violation", "race"})
}

func (s *scheduler) touch(c *cellState, write bool, what string) {
	g := s.cur
	now := access{g.id, vcAt(g.vc, g.id)}
	ordered := func(a access) bool { return a.g == g.id || a.c <= vcAt(g.vc, a.g) }
	if c.hw && !ordered(c.w) {
		s.w.race(what)
	}
	if write {
		for _, a := range c.r {
			if !ordered(a) {
				s.w.race(what)
			}
		}
		c.w, c.hw = now, true
		c.r = c.r[:0]
		return
	}
	for i, a := range c.r {
		if a.g == g.id {
			c.r[i] = now
			return
		}
	}
	c.r = append(c.r, now)
}

// raceAccess records an access to a cell (and the cells inside it).
func (w *worker) raceAccess(p *value, write bool) {
	s := w.sched
	if s == nil {
		return
	}
	if a, ok := (*p).(agg); ok {
		for i := range a {
			w.raceAccess(&a[i], write)
		}
		return
	}
	c := s.cells[p]
	if c == nil {
		c = &cellState{}
		s.cells[p] = c
	}
	s.touch(c, write, "shared memory")
}

func (w *worker) raceMap(m *mapv, write bool) {
	s := w.sched
	if s == nil || m == nil {
		return
	}
	c := s.maps[m]
	if c == nil {
		c = &cellState{}
		s.maps[m] = c
	}
	s.touch(c, write, "a map")
}

func (w *worker) acquire(l *lockState) {
	if w.sched != nil {
		w.sched.cur.vc = vcJoin(w.sched.cur.vc, l.vc)
	}
}

func (w *worker) release(l *lockState) {
	if w.sched != nil {
		g := w.sched.cur
		l.vc = vcJoin(l.vc, g.vc)
		g.tick()
	}
}

func (w *worker) chanSend(c *chanv, v value) {
	if c == nil {
		w.wait(func() bool { return false }, "send on nil channel")
	}
	if c.closed {
		w.rpanic("send on closed channel")
	}
	capn := max(c.cap, 1) // unbuffered channels are modelled with one slot
	w.wait(func() bool { return len(c.buf) < capn || c.closed }, "chan send")
	c.buf = append(c.buf, copyVal(v))
	w.release(&c.l)
	w.yield()
}

func (w *worker) chanRecv(c *chanv, et types.Type, commaOk bool) value {
	if c == nil {
		w.wait(func() bool { return false }, "receive from nil channel")
	}
	w.wait(func() bool { return len(c.buf) > 0 || c.closed }, "chan receive")
	w.acquire(&c.l)
	var v value
	ok := len(c.buf) > 0
	if ok {
		v = c.buf[0]
		c.buf = c.buf[1:]
	} else {
		v = w.zero(et)
	}
	if commaOk {
		return tuple{v, w.tb.Bool(ok)}
	}
	return v
}

func registerSync(reg func(string, intrinsic)) {
	spec := func(f intrinsic) intrinsic {
		return func(fr *frame, a []value) value {
			if fr.w.noFork {
				panic(specAbort{})
			}
			return f(fr, a)
		}
	}
	lock := spec(func(fr *frame, a []value) value {
		w := fr.w
		l := w.lock(a[0])
		w.yield()
		w.wait(func() bool { return !l.held && l.readers == 0 }, "mutex")
		l.held = true
		w.acquire(l)
		return nil
	})
	unlock := spec(func(fr *frame, a []value) value {
		w := fr.w
		l := w.lock(a[0])
		if !l.held {
			panic(&targetPanic{v: iface{}, msg: "sync: unlock of unlocked mutex"})
		}
		l.held = false
		w.release(l)
		return nil
	})
	trylock := spec(func(fr *frame, a []value) value {
		w := fr.w
		l := w.lock(a[0])
		w.yield()
		if l.held || l.readers > 0 {
			return w.tb.False
		}
		l.held = true
		w.acquire(l)
		return w.tb.True
	})
	reg("(*sync.Mutex).Lock", lock)
	reg("(*sync.Mutex).Unlock", unlock)
	reg("(*sync.Mutex).TryLock", trylock)
	reg("(*sync.RWMutex).Lock", lock)
	reg("(*sync.RWMutex).Unlock", unlock)
	reg("(*sync.RWMutex).TryLock", trylock)
	reg("(*sync.RWMutex).RLock", spec(func(fr *frame, a []value) value {
		w := fr.w
		l := w.lock(a[0])
		w.yield()
		w.wait(func() bool { return !l.held }, "rwmutex")
		l.readers++
		w.acquire(l)
		return nil
	}))
	reg("(*sync.RWMutex).RUnlock", spec(func(fr *frame, a []value) value {
		w := fr.w
		l := w.lock(a[0])
		if l.readers == 0 {
			panic(&targetPanic{v: iface{}, msg: "sync: RUnlock of unlocked RWMutex"})
		}
		l.readers--
		w.release(l)
		return nil
	}))
	reg("(*sync.WaitGroup).Add", spec(func(fr *frame, a []value) value {
		w := fr.w
		l := w.lock(a[0])
		d := w.intOf(a[1], true)
		l.n += d
		if l.n < 0 {
			w.rpanic("sync: negative WaitGroup counter")
		}
		if d < 0 {
			w.release(l)
		}
		return nil
	}))
	reg("(*sync.WaitGroup).Done", spec(func(fr *frame, a []value) value {
		w := fr.w
		l := w.lock(a[0])
		l.n--
		if l.n < 0 {
			w.rpanic("sync: negative WaitGroup counter")
		}
		w.release(l)
		return nil
	}))
	reg("(*sync.WaitGroup).Wait", spec(func(fr *frame, a []value) value {
		w := fr.w
		l := w.lock(a[0])
		w.wait(func() bool { return l.n == 0 }, "waitgroup")
		w.acquire(l)
		return nil
	}))
	reg("(*sync.Pool).Get", spec(func(fr *frame, a []value) value {
		p, _ := a[0].(*value)
		if p == nil {
			fr.w.throw("invalid memory address or nil pointer dereference")
		}
		l := fr.w.lock(a[0])
		fr.w.yield()
		if n := len(l.pool); n > 0 {
			v := l.pool[n-1]
			l.pool = l.pool[:n-1]
			fr.w.acquire(l)
			return v
		}
		st := (*p).(agg)
		if f, ok := st[len(st)-1].(*closure); ok && f != nil {
			return fr.w.callValue(fr, f, nil)
		}
		return iface{}
	}))
	// The last one put is the first one taken.
	reg("(*sync.Pool).Put", spec(func(fr *frame, a []value) value {
		l := fr.w.lock(a[0])
		if i, ok := a[1].(iface); ok && i.t != nil {
			l.pool = append(l.pool, a[1])
			fr.w.release(l)
		}
		return nil
	}))
	// atomics
	op := func(names []string, f func(w *worker, c *value, a []value) value) {
		for _, n := range names {
			reg(n, spec(func(fr *frame, a []value) value {
				w := fr.w
				c, ok := a[0].(*value)
				if !ok || c == nil {
					w.throw("invalid memory address or nil pointer dereference")
				}
				w.yield()
				l := w.lock(a[0])
				w.acquire(l)
				r := f(w, c, a[1:])
				w.release(l)
				return r
			}))
		}
	}
	each := func(p string) []string {
		var out []string
		for _, t := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
			out = append(out, "sync/atomic."+p+t)
		}
		return out
	}
	op(each("Load"), func(w *worker, c *value, a []value) value { return *c })
	op(each("Store"), func(w *worker, c *value, a []value) value { *c = a[0]; return nil })
	op(each("Swap"), func(w *worker, c *value, a []value) value { o := *c; *c = a[0]; return o })
	op(each("Add"), func(w *worker, c *value, a []value) value {
		*c = w.tb.Add((*c).(*Term), a[0].(*Term))
		return *c
	})
	op(each("CompareAndSwap"), func(w *worker, c *value, a []value) value {
		if w.branch(w.eq(*c, a[0])) {
			*c = a[1]
			return w.tb.True
		}
		return w.tb.False
	})
	// typed atomics that go through unsafe pointers in the real code
	field := func(name string, i int, f func(w *worker, c *value, a []value) value) {
		reg(name, spec(func(fr *frame, a []value) value {
			w := fr.w
			p, ok := a[0].(*value)
			if !ok || p == nil {
				w.throw("invalid memory address or nil pointer dereference")
			}
			w.yield()
			c := &(*p).(agg)[i]
			l := w.lock(c)
			w.acquire(l)
			r := f(w, c, a[1:])
			w.release(l)
			return r
		}))
	}
	for n, i := range map[string]int{"(*sync/atomic.Pointer[T]).": 2, "(*sync/atomic.Value).": 0} {
		field(n+"Load", i, func(w *worker, c *value, a []value) value { return *c })
		field(n+"Store", i, func(w *worker, c *value, a []value) value { *c = a[0]; return nil })
		field(n+"Swap", i, func(w *worker, c *value, a []value) value { o := *c; *c = a[0]; return o })
		field(n+"CompareAndSwap", i, func(w *worker, c *value, a []value) value {
			if w.branch(w.eq(*c, a[0])) {
				*c = a[1]
				return w.tb.True
			}
			return w.tb.False
		})
	}
}
