package main

// Summary of a function f(state, from, to) that advances a state step by step,
// such as policy.SupplyBetween: as long as it is called with the state g(from),
// where g(0) is the initial state, its result is g(to), for an idealised g.
// Calls that are not provably of this shape run the real body.

import (
	"sync"
)

type chain struct {
	name string
	init *Term
}

var supplyMu sync.Mutex
var supplySteps = []uint64{252000000000000}

// supplyReal is the supply after all heights below h.
func supplyReal(in []byte) []byte {
	h := uint32(in[0])<<24 | uint32(in[1])<<16 | uint32(in[2])<<8 | uint32(in[3])
	supplyMu.Lock()
	defer supplyMu.Unlock()
	for h < 1<<24 && uint32(len(supplySteps)) <= h {
		s := supplySteps[len(supplySteps)-1]
		if len(supplySteps) > 1 {
			s += (2100000000000000 - s) >> 22
		}
		supplySteps = append(supplySteps, s)
	}
	v := supplySteps[min(int(h), len(supplySteps)-1)]
	out := make([]byte, 8)
	for i := range out {
		out[i] = byte(v >> (56 - 8*i))
	}
	return out
}

func (w *worker) chainAt(h *Term) *Term {
	tb := w.tb
	in := make([]*Term, 4)
	for i := range in {
		in[i] = tb.Extract(h, int16(24-8*i), 8)
	}
	out := w.ideal("supply", in, 8, false, supplyReal)
	r := out[0]
	for _, o := range out[1:] {
		r = tb.Concat(r, o)
	}
	return r
}

// chainCall applies the summary if the call has the right shape.
func (w *worker) chainCall(args []value) (value, bool) {
	if len(args) != 3 || w.noFork {
		return nil, false
	}
	s, ok1 := args[0].(*Term)
	a, ok2 := args[1].(*Term)
	b, ok3 := args[2].(*Term)
	if !ok1 || !ok2 || !ok3 || s.w != 64 || a.w != 32 || b.w != 32 || !w.branch(w.tb.Ule(a, b)) {
		return nil, false
	}
	start := w.tb.And(w.tb.Eq(a, w.tb.Const(32, 0)), w.tb.Eq(s, w.chain.init))
	if start != w.tb.True && !w.branch(w.tb.Or(start, w.tb.Eq(s, w.chainAt(a)))) {
		return nil, false
	}
	return w.chainAt(b), true
}
