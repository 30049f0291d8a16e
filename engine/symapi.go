package main

// The harness API (package verif/harness/sym).

import (
	"fmt"
	"math/bits"
)

const symPkg = "verif/harness/sym."

func (w *worker) newInput(name string, wd int16) *Term {
	k := w.nvar[name]
	w.nvar[name] = k + 1
	vn := fmt.Sprintf("%s:%d", name, wd)
	if k > 0 {
		vn = fmt.Sprintf("%s#%d:%d", name, k, wd)
	}
	t := w.tb.Var(vn, wd)
	w.inputs = append(w.inputs, input{vn, wd, t})
	return t
}

func constStr(v value) string {
	s := v.(str)
	if s.b != nil {
		panic(pathEnd{"unsupported", "symbolic label"})
	}
	return s.s
}

func (w *worker) observe(label string, v value) {
	switch x := v.(type) {
	case *Term:
		if x.w >= 0 {
			w.obs = append(w.obs, obs{label, x})
		}
	case []value:
		w.obs = append(w.obs, obs{label + ".len", w.tb.Const(64, uint64(len(x)))})
		for _, e := range x {
			w.obs = append(w.obs, obs{label, e.(*Term)})
		}
	}
}

func registerSym(reg func(string, intrinsic)) {
	r := func(n string, f intrinsic) { reg(symPkg+n, f) }
	scalar := func(n string, wd int16) {
		r(n, func(fr *frame, a []value) value { return fr.w.newInput(constStr(a[0]), wd) })
	}
	r("place", func(fr *frame, a []value) value { return nil })
	r("embedData", func(fr *frame, a []value) value {
		s, ok := embedded[constStr(a[0])]
		return tuple{str{s: s}, fr.w.tb.Bool(ok)}
	})
	r("native", func(fr *frame, a []value) value { return fr.w.tb.False })
	r("Below", func(fr *frame, a []value) value {
		w, n := fr.w, a[1].(*Term)
		if !n.isConst() || n.val < 2 || n.val > 256 {
			panic(pathEnd{"unsupported", "sym.Below with an unusual bound"})
		}
		name := fmt.Sprintf("%s<%d", constStr(a[0]), n.val)
		wd := int16(bits.Len64(n.val - 1))
		k := w.nvar[name]
		w.nvar[name] = k + 1
		vn := fmt.Sprintf("%s#%d:%d", name, k, wd)
		v := w.tb.VarBelow(vn, wd, n.val)
		w.inputs = append(w.inputs, input{vn, wd, v})
		if v.hi < mask(wd) {
			w.pc = append(w.pc, w.tb.mkRaw(OpNot, wBool, 0, "", w.tb.mkRaw(OpUlt, wBool, 0, "", w.tb.Const(wd, v.hi), v)))
		}
		return w.tb.Zext(v, 8)
	})
	scalar("Bool", wBool)
	scalar("U8", 8)
	scalar("U16", 16)
	scalar("U32", 32)
	scalar("U64", 64)
	r("Fill", func(fr *frame, a []value) value {
		n := constStr(a[0])
		b := a[1].([]value)
		for i := range b {
			b[i] = fr.w.newInput(n, 8)
		}
		return nil
	})
	r("Choose", func(fr *frame, a []value) value {
		w := fr.w
		n := int(w.intOf(a[1], true))
		if n <= 0 {
			panic(pathEnd{"assume", ""})
		}
		k := w.choose(n)
		t := w.num64(k).(*Term)
		w.inputs = append(w.inputs, input{constStr(a[0]), 0, t})
		return t
	})
	r("Assume", func(fr *frame, a []value) value { fr.w.assume(a[0].(*Term)); return nil })
	r("Assert", func(fr *frame, a []value) value { fr.w.assert(a[0].(*Term), constStr(a[1])); return nil })
	r("Reach", func(fr *frame, a []value) value { fr.w.reach[constStr(a[0])] = true; return nil })
	r("Observe", func(fr *frame, a []value) value { fr.w.observe(constStr(a[0]), a[1]); return nil })
	r("ObserveBytes", func(fr *frame, a []value) value { fr.w.observe(constStr(a[0]), a[1]); return nil })
	r("And", func(fr *frame, a []value) value {
		var ts []*Term
		for _, x := range a[0].([]value) {
			ts = append(ts, x.(*Term))
		}
		return fr.w.tb.And(ts...)
	})
	r("Or", func(fr *frame, a []value) value {
		var ts []*Term
		for _, x := range a[0].([]value) {
			ts = append(ts, x.(*Term))
		}
		return fr.w.tb.Or(ts...)
	})
	r("Implies", func(fr *frame, a []value) value { return fr.w.tb.Implies(a[0].(*Term), a[1].(*Term)) })
	r("Ite", func(fr *frame, a []value) value { return fr.w.tb.Ite(a[0].(*Term), a[1].(*Term), a[2].(*Term)) })
	r("EqBytes", func(fr *frame, a []value) value {
		return eqBytes(fr.w, fr.w.bytesOf(a[0].([]value)), fr.w.bytesOf(a[1].([]value)))
	})
	r("Concretize", func(fr *frame, a []value) value { return fr.w.concretize(a[0].(*Term)) })
	r("AllocLimit", func(fr *frame, a []value) value {
		fr.w.allocLimit = int(fr.w.intOf(a[0], true))
		return nil
	})
	r("Chain", func(fr *frame, a []value) value {
		fr.w.chain = &chain{constStr(a[0]), a[1].(*Term)}
		return nil
	})
	r("MapOrders", func(fr *frame, a []value) value { fr.w.mapOrders = true; return nil })
	r("Thorough", func(fr *frame, a []value) value { return fr.w.tb.Bool(fr.w.eng.thorough) })
	r("Context", func(fr *frame, a []value) value { fr.w.ctx = constStr(a[0]); return nil })
	r("Symbolic", func(fr *frame, a []value) value { return fr.w.tb.True })
	r("Bound", func(fr *frame, a []value) value {
		e := fr.w.eng
		e.mu.Lock()
		e.bounds[constStr(a[0])] = constStr(a[1])
		e.mu.Unlock()
		return nil
	})
}
