package main

// Finding models by changing a few inputs of the current one. This only ever
// finds that both sides of a branch are possible; the solver does the rest.

import (
	"math/rand"
	"sort"
)

// support lists all variables of t.
func (tb *TB) support(t *Term) []*Term {
	seen := map[int32]bool{}
	var out []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		if t.op == OpVar {
			out = append(out, t)
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(t)
	return out
}

// guess looks for a model of the path condition and extra near the current one.
func (w *worker) guess(extra *Term) Model {
	if len(w.apps) != 0 {
		return nil
	}
	vars := w.tb.support(extra)
	if len(vars) == 0 {
		return nil
	}
	// Prefer inputs that few conditions depend on.
	used := map[*Term]int{}
	for _, t := range w.pc {
		if len(w.tb.varsOf(t)) < 2 {
			continue
		}
		for _, v := range w.tb.support(t) {
			used[v]++
		}
	}
	sort.SliceStable(vars, func(i, j int) bool { return used[vars[i]] < used[vars[j]] })
	low := 1
	for low < len(vars) && used[vars[low]] == used[vars[0]] {
		low++
	}
	rng := rand.New(rand.NewSource(int64(len(w.trace)) + int64(extra.size)))
	ev := w.ev2
	for try := 0; try < 3000; try++ {
		m := make(Model, len(w.model)+3)
		for k, v := range w.model {
			m[k] = v
		}
		from := vars
		switch try % 4 {
		case 0, 1:
			from = vars[:low]
		case 2:
			from = vars[:1+rng.Intn(len(vars))]
		}
		for n := rng.Intn(3); n >= 0; n-- {
			v := from[rng.Intn(len(from))]
			if v.w == 0 {
				m[v.name] = uint64(rng.Intn(2))
			} else if v.hi == ^uint64(0) {
				m[v.name] = rng.Uint64()
			} else {
				m[v.name] = rng.Uint64() % (v.hi + 1)
			}
		}
		ev.reset(m)
		ok := ev.eval(extra) != 0
		for i := len(w.pc) - 1; ok && i >= 0; i-- {
			ok = ev.eval(w.pc[i]) != 0
		}
		if ok {
			return m
		}
	}
	return nil
}
