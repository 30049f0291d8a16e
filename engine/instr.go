package main

// Instruction compilation.

import (
	"fmt"
	"go/token"
	"go/types"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type chanv struct {
	buf    []value
	cap    int
	closed bool
	l      lockState
}

func (w *worker) compileInstr(c *fn, in ssa.Instruction) (func(fr *frame), bool) {
	dst := int32(-1)
	if v, ok := in.(ssa.Value); ok {
		dst = c.regOf[v]
	}
	switch x := in.(type) {
	case *ssa.BinOp:
		a, b := w.opd(c, x.X), w.opd(c, x.Y)
		f := w.binop(x.Op, x.X.Type(), x.Y.Type())
		return func(fr *frame) { fr.regs[dst] = f(fr.w, fr.get(&a), fr.get(&b)) }, true

	case *ssa.UnOp:
		a := w.opd(c, x.X)
		switch x.Op {
		case token.MUL:
			return func(fr *frame) { fr.regs[dst] = fr.w.load(fr.get(&a)) }, true
		case token.NOT:
			return func(fr *frame) { fr.regs[dst] = fr.w.tb.Not(fr.get(&a).(*Term)) }, true
		case token.SUB:
			return func(fr *frame) {
				t := fr.get(&a).(*Term)
				if t.w < 0 {
					fr.regs[dst] = fr.w.tb.FNeg(t)
				} else {
					fr.regs[dst] = fr.w.tb.Neg(t)
				}
			}, true
		case token.XOR:
			return func(fr *frame) { fr.regs[dst] = fr.w.tb.BNot(fr.get(&a).(*Term)) }, true
		case token.ARROW:
			commaOk := x.CommaOk
			et := under(x.X.Type()).(*types.Chan).Elem()
			return func(fr *frame) { fr.regs[dst] = fr.w.chanRecv(fr.get(&a).(*chanv), et, commaOk) }, false
		}

	case *ssa.Alloc:
		et := x.Type().(*types.Pointer).Elem()
		// Heap and local allocations both yield a fresh zeroed cell.
		return func(fr *frame) {
			p := new(value)
			*p = fr.w.zero(et)
			fr.regs[dst] = p
		}, false

	case *ssa.FieldAddr:
		a := w.opd(c, x.X)
		fi := x.Field
		return func(fr *frame) {
			p := fr.get(&a)
			fr.regs[dst] = fr.w.fieldAddr(p, fi)
		}, true

	case *ssa.Field:
		a := w.opd(c, x.X)
		fi := x.Field
		return func(fr *frame) { fr.regs[dst] = fr.get(&a).(agg)[fi] }, true

	case *ssa.IndexAddr:
		a, i := w.opd(c, x.X), w.opd(c, x.Index)
		signed := isSigned(x.Index.Type())
		var et types.Type
		switch u := under(x.X.Type()).(type) {
		case *types.Slice:
			et = u.Elem()
		case *types.Pointer:
			et = under(u.Elem()).(*types.Array).Elem()
		}
		_, _, scalar := scalarWidth(et)
		return func(fr *frame) {
			var elems []value
			switch v := fr.get(&a).(type) {
			case []value:
				elems = v
			case *value:
				if v == nil {
					fr.w.throw("invalid memory address or nil pointer dereference")
				}
				elems = (*v).(agg)
			default:
				panic(pathEnd{"unsupported", fmt.Sprintf("index of %T", v)})
			}
			idx := fr.get(&i).(*Term)
			fr.w.boundsCheck(idx, len(elems), signed)
			if !idx.isConst() {
				if scalar {
					if fr.w.sched != nil {
						for k := range elems {
							fr.w.raceAccess(&elems[k], false)
						}
					}
					fr.regs[dst] = symPtr{elems, idx}
					return
				}
				idx = fr.w.concretize(idx)
			}
			fr.regs[dst] = &elems[idx.val]
		}, true

	case *ssa.Index:
		a, i := w.opd(c, x.X), w.opd(c, x.Index)
		signed := isSigned(x.Index.Type())
		return func(fr *frame) {
			idx := fr.get(&i).(*Term)
			switch v := fr.get(&a).(type) {
			case agg:
				fr.w.boundsCheck(idx, len(v), signed)
				if !idx.isConst() {
					if len(v) > 0 {
						if _, ok := v[0].(*Term); ok {
							fr.regs[dst] = fr.w.tableRead(v, idx)
							return
						}
					}
					idx = fr.w.concretize(idx)
				}
				fr.regs[dst] = v[idx.val]
			case str:
				fr.regs[dst] = fr.w.strIndex(v, idx, signed)
			}
		}, true

	case *ssa.Lookup:
		a, i := w.opd(c, x.X), w.opd(c, x.Index)
		commaOk := x.CommaOk
		if b, ok := under(x.X.Type()).(*types.Basic); ok && b.Info()&types.IsString != 0 {
			signed := isSigned(x.Index.Type())
			return func(fr *frame) {
				fr.regs[dst] = fr.w.strIndex(fr.get(&a).(str), fr.get(&i).(*Term), signed)
			}, true
		}
		et := under(x.X.Type()).(*types.Map).Elem()
		return func(fr *frame) {
			m := fr.get(&a).(*mapv)
			fr.w.raceMap(m, false)
			k := fr.get(&i)
			fr.w.checkHashable(k)
			e := fr.w.mapFind(m, k)
			var v value
			if e != nil {
				v = copyVal(e.v)
			} else {
				v = fr.w.zero(et)
			}
			if commaOk {
				fr.regs[dst] = tuple{v, fr.w.tb.Bool(e != nil)}
			} else {
				fr.regs[dst] = v
			}
		}, false

	case *ssa.MapUpdate:
		a, k, v := w.opd(c, x.Map), w.opd(c, x.Key), w.opd(c, x.Value)
		return func(fr *frame) {
			m := fr.get(&a).(*mapv)
			if m == nil {
				fr.w.throw("assignment to entry in nil map")
			}
			fr.w.raceMap(m, true)
			kv := fr.get(&k)
			fr.w.checkHashable(kv)
			fr.w.mapSet(m, kv, fr.get(&v))
		}, false

	case *ssa.Store:
		a, v := w.opd(c, x.Addr), w.opd(c, x.Val)
		return func(fr *frame) { fr.w.store(fr.get(&a), fr.get(&v)) }, false

	case *ssa.Convert:
		a := w.opd(c, x.X)
		f, pure := w.convert(x.X.Type(), x.Type())
		return func(fr *frame) { fr.regs[dst] = f(fr.w, fr.get(&a)) }, pure

	case *ssa.MultiConvert:
		a := w.opd(c, x.X)
		f, _ := w.convert(x.X.Type(), x.Type())
		return func(fr *frame) { fr.regs[dst] = f(fr.w, fr.get(&a)) }, false

	case *ssa.ChangeType:
		a := w.opd(c, x.X)
		return func(fr *frame) { fr.regs[dst] = fr.get(&a) }, true

	case *ssa.ChangeInterface:
		a := w.opd(c, x.X)
		return func(fr *frame) { fr.regs[dst] = fr.get(&a) }, true

	case *ssa.MakeInterface:
		a := w.opd(c, x.X)
		t := x.X.Type()
		return func(fr *frame) { fr.regs[dst] = iface{t, copyVal(fr.get(&a))} }, true

	case *ssa.Extract:
		a := w.opd(c, x.Tuple)
		i := x.Index
		return func(fr *frame) { fr.regs[dst] = fr.get(&a).(tuple)[i] }, true

	case *ssa.MakeSlice:
		l, cp := w.opd(c, x.Len), w.opd(c, x.Cap)
		et := under(x.Type()).(*types.Slice).Elem()
		ls, cs := isSigned(x.Len.Type()), isSigned(x.Cap.Type())
		same := x.Len == x.Cap
		return func(fr *frame) {
			n := fr.w.makeLen(fr.get(&l).(*Term), ls, "len")
			cc := n
			if !same {
				cc = fr.w.makeLen(fr.get(&cp).(*Term), cs, "cap")
			}
			if n > cc {
				fr.w.throw("makeslice: len out of range")
			}
			fr.regs[dst] = fr.w.makeSlice(et, n, cc)
		}, false

	case *ssa.MakeMap:
		return func(fr *frame) { fr.regs[dst] = newMap() }, false

	case *ssa.MakeChan:
		a := w.opd(c, x.Size)
		return func(fr *frame) {
			fr.regs[dst] = &chanv{cap: int(fr.w.intOf(fr.get(&a), true))}
		}, false

	case *ssa.MakeClosure:
		f := x.Fn.(*ssa.Function)
		var bs []opd
		for _, b := range x.Bindings {
			bs = append(bs, w.opd(c, b))
		}
		return func(fr *frame) {
			env := make([]value, len(bs))
			for i := range bs {
				env[i] = fr.get(&bs[i])
			}
			fr.regs[dst] = &closure{f: f, env: env}
		}, false

	case *ssa.Slice:
		a := w.opd(c, x.X)
		var lo, hi, mx *opd
		mk := func(v ssa.Value) *opd {
			if v == nil {
				return nil
			}
			o := w.opd(c, v)
			return &o
		}
		lo, hi, mx = mk(x.Low), mk(x.High), mk(x.Max)
		return func(fr *frame) { fr.regs[dst] = fr.w.sliceOp(fr, fr.get(&a), lo, hi, mx) }, false

	case *ssa.SliceToArrayPointer:
		a := w.opd(c, x.X)
		n := int(under(x.Type().(*types.Pointer).Elem()).(*types.Array).Len())
		return func(fr *frame) {
			s := fr.get(&a).([]value)
			if len(s) < n {
				fr.w.throw("cannot convert slice to array: too short")
			}
			if s == nil {
				fr.regs[dst] = (*value)(nil)
				return
			}
			p := new(value)
			*p = agg(s[:n:n])
			fr.regs[dst] = p
		}, false

	case *ssa.TypeAssert:
		a := w.opd(c, x.X)
		at, commaOk := x.AssertedType, x.CommaOk
		return func(fr *frame) {
			fr.regs[dst] = fr.w.typeAssert(fr.get(&a).(iface), at, commaOk)
		}, false

	case *ssa.Range:
		a := w.opd(c, x.X)
		return func(fr *frame) {
			switch v := fr.get(&a).(type) {
			case str:
				fr.regs[dst] = &strIter{s: v}
			case *mapv:
				it := &mapIter{m: v}
				if v != nil {
					fr.w.raceMap(v, false)
					for _, e := range v.entries {
						if !e.dead {
							it.order = append(it.order, e)
						}
					}
					fr.w.mapOrder(it)
				}
				fr.regs[dst] = it
			}
		}, false

	case *ssa.Next:
		a := w.opd(c, x.Iter)
		tup := x.Type().(*types.Tuple)
		return func(fr *frame) { fr.regs[dst] = fr.w.next(fr.get(&a), tup) }, false

	case *ssa.Call:
		f := w.compileCall(c, &x.Call)
		pos := x.Pos()
		return func(fr *frame) {
			fr.pos = pos
			fn, args := f(fr)
			fr.regs[dst] = fr.w.callValue(fr, fn, args)
		}, false

	case *ssa.Defer:
		f := w.compileCall(c, &x.Call)
		return func(fr *frame) {
			fn, args := f(fr)
			fr.defers = append(fr.defers, func() { fr.w.callValue(fr, fn, args) })
		}, false

	case *ssa.Go:
		f := w.compileCall(c, &x.Call)
		return func(fr *frame) {
			fn, args := f(fr)
			fr.w.goStmt(fr, fn, args)
		}, false

	case *ssa.RunDefers:
		return func(fr *frame) {
			fr.panicking = nil
			fr.runDefers()
			if fr.panicking != nil {
				p := fr.panicking
				panic(p)
			}
		}, false

	case *ssa.Send:
		a, v := w.opd(c, x.Chan), w.opd(c, x.X)
		return func(fr *frame) { fr.w.chanSend(fr.get(&a).(*chanv), fr.get(&v)) }, false

	case *ssa.Select:
		return func(fr *frame) { panic(pathEnd{"unsupported", "select"}) }, false
	}
	s := fmt.Sprintf("%T", in)
	return func(fr *frame) { panic(pathEnd{"unsupported", s}) }, false
}

func (w *worker) checkHashable(k value) {
	if f, ok := k.(iface); ok && f.t != nil {
		if _, isRT := f.v.(rtype); !isRT && !types.Comparable(f.t) {
			w.throw("hash of unhashable type " + f.t.String())
		}
	}
}

func (w *worker) mapOrder(it *mapIter) {
	if w.sched == nil && w.mapOrders && len(it.order) >= 2 {
		if w.choose(2) == 1 {
			for i, j := 0, len(it.order)-1; i < j; i, j = i+1, j-1 {
				it.order[i], it.order[j] = it.order[j], it.order[i]
			}
		}
	}
}

func (w *worker) fieldAddr(p value, fi int) value {
	switch v := p.(type) {
	case *value:
		if v == nil {
			w.throw("invalid memory address or nil pointer dereference")
		}
		a, ok := (*v).(agg)
		if !ok {
			panic(pathEnd{"unsupported", fmt.Sprintf("field of %T", *v)})
		}
		return &a[fi]
	case unsafePtr:
		return w.fieldAddr(v.p, fi)
	}
	panic(pathEnd{"unsupported", fmt.Sprintf("field address of %T", p)})
}

func (w *worker) strIndex(s str, idx *Term, signed bool) value {
	w.boundsCheck(idx, s.len(), signed)
	if idx.isConst() {
		return w.strByte(s, int(idx.val))
	}
	return w.table(w.strBytes(s), idx)
}

const maxMake = 1 << 22

// makeLen validates and concretises a make length.
func (w *worker) makeLen(t *Term, signed bool, what string) int {
	t = w.substitute(t)
	if !t.isConst() {
		if signed {
			if w.branch(w.tb.Slt(t, w.tb.Const(t.w, 0))) {
				w.throw("makeslice: " + what + " out of range")
			}
		}
		w.checkAlloc(t)
		t = w.concretize(t)
	}
	v := int64(t.val)
	if signed {
		v = int64(signExt(t.val, t.w))
	}
	if v < 0 || v > 1<<47 {
		w.throw("makeslice: " + what + " out of range")
	}
	w.checkAlloc(w.tb.Const(64, uint64(v)))
	return int(v)
}

// checkAlloc reports allocations beyond the harness' declared limit.
func (w *worker) checkAlloc(t *Term) {
	lim := uint64(maxMake)
	if w.allocLimit >= 0 {
		lim = uint64(w.allocLimit)
	}
	if t.w < 64 && lim >= mask(t.w) {
		return
	}
	if t.hi <= lim {
		return
	}
	if t.isConst() {
		w.violation("alloc", fmt.Sprintf("allocation of %d elements", t.val), w.model)
		panic(pathEnd{"violation", "alloc"})
	}
	for _, k := range []uint64{1 << 34, 1 << 28, 1 << 24, 1 << 18, 1 << 15, 1 << 12, lim} {
		if k < lim || (t.w < 64 && k >= mask(t.w)) {
			continue
		}
		big := w.tb.Ult(w.tb.Const(t.w, k), t)
		if len(w.trace) < len(w.prefix) {
			break
		}
		res, m := w.check(big)
		if res == Sat {
			w.pcTmp(big, func() { w.violation("alloc", "unbounded allocation", m) })
			break
		}
	}
	w.assume(w.tb.Ule(t, w.tb.Const(t.w, lim)))
}

func (w *worker) makeSlice(et types.Type, n, c int) []value {
	s := make([]value, c)
	if _, _, ok := scalarWidth(et); ok {
		z := w.zero(et)
		for i := range s {
			s[i] = z
		}
	} else {
		for i := range s {
			s[i] = w.zero(et)
		}
	}
	return s[:n]
}

func (w *worker) sliceOp(fr *frame, x value, lo, hi, mx *opd) value {
	bound := func(o *opd, def int) *Term {
		if o == nil {
			return w.tb.Const(64, uint64(def))
		}
		t := fr.get(o).(*Term)
		if t.w < 64 {
			t = w.tb.Resize(t, 64, true)
		}
		return t
	}
	var n, cp int
	var elems []value
	var s str
	isStr := false
	switch v := x.(type) {
	case str:
		s, isStr = v, true
		n, cp = v.len(), v.len()
	case []value:
		elems = v
		n, cp = len(v), cap(v)
	case *value:
		if v == nil {
			w.throw("invalid memory address or nil pointer dereference")
		}
		elems = (*v).(agg)
		n, cp = len(elems), len(elems)
	default:
		panic(pathEnd{"unsupported", fmt.Sprintf("slice of %T", x)})
	}
	l, h, m := bound(lo, 0), bound(hi, n), bound(mx, cp)
	check := func(c *Term) {
		if !w.branch(c) {
			w.throw("slice bounds out of range")
		}
	}
	tb := w.tb
	if mx != nil {
		check(tb.Ule(m, tb.Const(64, uint64(cp))))
		check(tb.Ule(h, m))
	} else {
		check(tb.Ule(h, tb.Const(64, uint64(cp))))
	}
	check(tb.Ule(l, h))
	li, hi2, mi := int(w.concretize(l).val), int(w.concretize(h).val), int(w.concretize(m).val)
	if isStr {
		return s.slice(li, hi2)
	}
	if elems == nil {
		return []value(nil)
	}
	return elems[li:hi2:mi]
}

func (w *worker) implements(dyn types.Type, it *types.Interface) bool {
	return types.Implements(dyn, it)
}

func (w *worker) typeAssert(x iface, at types.Type, commaOk bool) value {
	ok := false
	var v value
	if it, isI := under(at).(*types.Interface); isI {
		if x.t != nil {
			if _, isRT := x.v.(rtype); isRT {
				ok = it.NumMethods() == 0 || types.Identical(at, w.eng.reflectType)
			} else {
				ok = w.implements(x.t, it)
			}
		}
		if ok {
			v = x
		} else {
			v = iface{}
		}
	} else {
		ok = x.t != nil && types.Identical(x.t, at)
		if ok {
			v = x.v
		} else if commaOk {
			v = w.zero(at)
		}
	}
	if commaOk {
		return tuple{v, w.tb.Bool(ok)}
	}
	if !ok {
		got := "nil"
		if x.t != nil {
			got = x.t.String()
		}
		w.throw("interface conversion: interface is " + got + ", not " + at.String())
	}
	return v
}

func (w *worker) next(it value, tup *types.Tuple) value {
	tb := w.tb
	switch x := it.(type) {
	case *mapIter:
		for x.i < len(x.order) {
			e := x.order[x.i]
			x.i++
			if e.dead {
				continue
			}
			return tuple{tb.True, copyVal(e.k), copyVal(e.v)}
		}
		return tuple{tb.False, w.zeroOrNil(tup.At(1).Type()), w.zeroOrNil(tup.At(2).Type())}
	case *strIter:
		n := x.s.len()
		if x.i >= n {
			return tuple{tb.False, tb.Const(64, 0), tb.Const(32, 0)}
		}
		pos := x.i
		b0 := w.strByte(x.s, pos)
		if w.branch(tb.Ult(b0, tb.Const(8, 0x80))) {
			x.i++
			return tuple{tb.True, tb.Const(64, uint64(pos)), tb.Zext(b0, 32)}
		}
		// Non-ASCII: concretise the bytes of the rune.
		k := min(n-pos, 4)
		buf := make([]byte, k)
		for i := 0; i < k; i++ {
			buf[i] = byte(w.concretize(w.strByte(x.s, pos+i)).val)
		}
		r, sz := utf8.DecodeRune(buf)
		x.i += sz
		return tuple{tb.True, tb.Const(64, uint64(pos)), tb.Const(32, uint64(uint32(r)))}
	}
	panic(pathEnd{"unsupported", fmt.Sprintf("range over %T", it)})
}

func (w *worker) zeroOrNil(t types.Type) value {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return nil
	}
	return w.zero(t)
}

// ---- binary operators ----

func (w *worker) binop(op token.Token, xt, yt types.Type) func(w *worker, a, b value) value {
	wd, signed, scalar := scalarWidth(xt)
	switch op {
	case token.EQL:
		return func(w *worker, a, b value) value { return w.eq(a, b) }
	case token.NEQ:
		return func(w *worker, a, b value) value { return w.tb.Not(w.eq(a, b)) }
	}
	if bt, ok := under(xt).(*types.Basic); ok && bt.Info()&types.IsString != 0 {
		switch op {
		case token.ADD:
			return func(w *worker, a, b value) value { return w.strConcat(a.(str), b.(str)) }
		case token.LSS:
			return func(w *worker, a, b value) value { return w.strLess(a.(str), b.(str), false) }
		case token.LEQ:
			return func(w *worker, a, b value) value { return w.strLess(a.(str), b.(str), true) }
		case token.GTR:
			return func(w *worker, a, b value) value { return w.strLess(b.(str), a.(str), false) }
		case token.GEQ:
			return func(w *worker, a, b value) value { return w.strLess(b.(str), a.(str), true) }
		}
	}
	if !scalar {
		return func(w *worker, a, b value) value {
			panic(pathEnd{"unsupported", "operator on " + xt.String()})
		}
	}
	T := func(f func(tb *TB, a, b *Term) *Term) func(w *worker, a, b value) value {
		return func(w *worker, a, b value) value { return f(w.tb, a.(*Term), b.(*Term)) }
	}
	if wd < 0 {
		switch op {
		case token.ADD:
			return T(func(tb *TB, a, b *Term) *Term { return tb.FBin(OpFAdd, a, b) })
		case token.SUB:
			return T(func(tb *TB, a, b *Term) *Term { return tb.FBin(OpFSub, a, b) })
		case token.MUL:
			return T(func(tb *TB, a, b *Term) *Term { return tb.FBin(OpFMul, a, b) })
		case token.QUO:
			return T(func(tb *TB, a, b *Term) *Term { return tb.FBin(OpFDiv, a, b) })
		case token.LSS:
			return T(func(tb *TB, a, b *Term) *Term { return tb.FCmp(OpFLt, a, b) })
		case token.LEQ:
			return T(func(tb *TB, a, b *Term) *Term { return tb.FCmp(OpFLe, a, b) })
		case token.GTR:
			return T(func(tb *TB, a, b *Term) *Term { return tb.FCmp(OpFLt, b, a) })
		case token.GEQ:
			return T(func(tb *TB, a, b *Term) *Term { return tb.FCmp(OpFLe, b, a) })
		}
	}
	lt := func(tb *TB, a, b *Term) *Term {
		if signed {
			return tb.Slt(a, b)
		}
		return tb.Ult(a, b)
	}
	switch op {
	case token.ADD:
		return T(func(tb *TB, a, b *Term) *Term { return tb.Add(a, b) })
	case token.SUB:
		return T(func(tb *TB, a, b *Term) *Term { return tb.Sub(a, b) })
	case token.MUL:
		return T(func(tb *TB, a, b *Term) *Term { return tb.Mul(a, b) })
	case token.AND:
		return T(func(tb *TB, a, b *Term) *Term { return tb.BAnd(a, b) })
	case token.OR:
		return T(func(tb *TB, a, b *Term) *Term { return tb.BOr(a, b) })
	case token.XOR:
		return T(func(tb *TB, a, b *Term) *Term { return tb.BXor(a, b) })
	case token.AND_NOT:
		return T(func(tb *TB, a, b *Term) *Term { return tb.BAnd(a, tb.BNot(b)) })
	case token.LSS:
		return T(lt)
	case token.GTR:
		return T(func(tb *TB, a, b *Term) *Term { return lt(tb, b, a) })
	case token.LEQ:
		return T(func(tb *TB, a, b *Term) *Term { return tb.Not(lt(tb, b, a)) })
	case token.GEQ:
		return T(func(tb *TB, a, b *Term) *Term { return tb.Not(lt(tb, a, b)) })
	case token.QUO, token.REM:
		return func(w *worker, av, bv value) value {
			a, b := av.(*Term), bv.(*Term)
			z := w.tb.Const(b.w, 0)
			if w.branch(w.tb.Eq(b, z)) {
				w.throw("integer divide by zero")
			}
			switch {
			case op == token.QUO && signed:
				return w.tb.SDiv(a, b)
			case op == token.QUO:
				return w.tb.UDiv(a, b)
			case signed:
				return w.tb.SRem(a, b)
			}
			return w.tb.URem(a, b)
		}
	case token.SHL, token.SHR:
		ysigned := isSigned(yt)
		return func(w *worker, av, bv value) value {
			a, b := av.(*Term), bv.(*Term)
			tb := w.tb
			if ysigned {
				if w.branch(tb.Slt(b, tb.Const(b.w, 0))) {
					w.throw("negative shift amount")
				}
			}
			// Bring the count to a's width, saturating.
			n := b
			if b.w > a.w {
				over := tb.Ule(tb.Const(b.w, uint64(a.w)), b)
				n = tb.Ite(over, tb.Const(a.w, uint64(a.w)), tb.Extract(b, 0, a.w))
			} else if b.w < a.w {
				n = tb.Zext(b, a.w)
			}
			switch {
			case op == token.SHL:
				return tb.Shl(a, n)
			case signed:
				return tb.Ashr(a, n)
			}
			return tb.Lshr(a, n)
		}
	}
	return func(w *worker, a, b value) value { panic(pathEnd{"unsupported", "binop " + op.String()}) }
}

func (w *worker) strConcat(a, b str) str {
	if a.b == nil && b.b == nil {
		return str{s: a.s + b.s}
	}
	out := make([]*Term, 0, a.len()+b.len())
	out = append(out, w.strBytes(a)...)
	out = append(out, w.strBytes(b)...)
	return mkStr(out)
}

// ---- conversions ----

func (w *worker) convert(from, to types.Type) (func(w *worker, v value) value, bool) {
	fu, tu := under(from), under(to)
	fw, fs, fok := scalarWidth(from)
	tw, ts, tok := scalarWidth(to)
	if fok && tok && fw != wBool && tw != wBool {
		switch {
		case fw > 0 && tw > 0:
			return func(w *worker, v value) value { return w.tb.Resize(v.(*Term), tw, fs) }, true
		case fw > 0 && tw < 0:
			return func(w *worker, v value) value { return w.tb.FromInt(v.(*Term), tw, fs) }, true
		case fw < 0 && tw > 0:
			return func(w *worker, v value) value { return w.tb.ToInt(v.(*Term), tw, ts) }, true
		default:
			return func(w *worker, v value) value { return w.tb.FtoF(v.(*Term), tw) }, true
		}
	}
	isString := func(t types.Type) bool {
		b, ok := t.(*types.Basic)
		return ok && b.Info()&types.IsString != 0
	}
	elem := func(t types.Type) int16 {
		s, ok := t.(*types.Slice)
		if !ok {
			return 0
		}
		ew, _, ok := scalarWidth(s.Elem())
		if !ok {
			return 0
		}
		return ew
	}
	switch {
	case isString(tu) && elem(fu) == 8:
		return func(w *worker, v value) value { return mkStr(w.bytesOf(v.([]value))) }, false
	case isString(fu) && elem(tu) == 8:
		return func(w *worker, v value) value {
			s := v.(str)
			n := s.len()
			c := roundupsize(n, true)
			if n == 0 {
				return []value{}
			}
			out := make([]value, n, c)
			for i := range out {
				out[i] = w.strByte(s, i)
			}
			z := value(w.tb.Const(8, 0))
			for full := out[:c]; n < c; n++ {
				full[n] = z
			}
			return out
		}, false
	case isString(tu) && elem(fu) == 32:
		return func(w *worker, v value) value {
			var out []*Term
			for _, r := range v.([]value) {
				out = append(out, w.runeBytes(r.(*Term))...)
			}
			return mkStr(out)
		}, false
	case isString(fu) && elem(tu) == 32:
		return func(w *worker, v value) value {
			it := &strIter{s: v.(str)}
			var out []value
			for it.i < it.s.len() {
				t := w.next(it, nil).(tuple)
				out = append(out, t[2])
			}
			return out
		}, false
	case isString(tu) && fok && fw > 0:
		return func(w *worker, v value) value {
			t := w.tb.Resize(v.(*Term), 32, fs)
			return mkStr(w.runeBytes(t))
		}, false
	case isString(fu) && isString(tu):
		return func(w *worker, v value) value { return v }, true
	}
	if b, ok := tu.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		return func(w *worker, v value) value { return v }, true
	}
	if b, ok := fu.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		if _, ok := tu.(*types.Pointer); ok {
			return func(w *worker, v value) value {
				panic(pathEnd{"unsupported", "unsafe.Pointer conversion to " + to.String()})
			}, false
		}
	}
	if _, ok := fu.(*types.Slice); ok {
		if a, ok := tu.(*types.Array); ok {
			n := int(a.Len())
			return func(w *worker, v value) value {
				s := v.([]value)
				if len(s) < n {
					w.throw("cannot convert slice to array: too short")
				}
				return copyVal(agg(s[:n]))
			}, false
		}
	}
	fs2, ts2 := from.String(), to.String()
	return func(w *worker, v value) value {
		panic(pathEnd{"unsupported", "conversion " + fs2 + " to " + ts2})
	}, false
}

func (w *worker) runeBytes(t *Term) []*Term {
	if !t.isConst() {
		if w.branch(w.tb.Ult(t, w.tb.Const(t.w, 0x80))) {
			return []*Term{w.tb.Extract(t, 0, 8)}
		}
		t = w.concretize(t)
	}
	s := string(rune(int32(t.val)))
	return w.strBytes(str{s: s})
}

func (w *worker) bytesOf(s []value) []*Term {
	out := make([]*Term, len(s))
	for i, v := range s {
		if w.sched != nil {
			w.raceAccess(&s[i], false)
		}
		out[i] = v.(*Term)
	}
	return out
}

func (w *worker) mkBytes(ts []*Term) []value {
	out := make([]value, len(ts))
	for i, t := range ts {
		out[i] = t
	}
	return out
}

// ---- calls ----

func (w *worker) compileCall(c *fn, cc *ssa.CallCommon) func(fr *frame) (*closure, []value) {
	var as []opd
	for _, a := range cc.Args {
		as = append(as, w.opd(c, a))
	}
	if cc.IsInvoke() {
		recv := w.opd(c, cc.Value)
		m := cc.Method
		return func(fr *frame) (*closure, []value) {
			x := fr.get(&recv).(iface)
			if x.t == nil {
				fr.w.throw("invalid memory address or nil pointer dereference")
			}
			args := make([]value, 0, len(as)+1)
			args = append(args, x.v)
			for i := range as {
				args = append(args, fr.get(&as[i]))
			}
			if rt, ok := x.v.(rtype); ok {
				name := m.Name()
				return &closure{nat: func(fr *frame, args []value) value {
					return fr.w.rtypeMethod(rt, name, args[1:])
				}}, args
			}
			f := fr.w.lookupMethod(x.t, m)
			return &closure{f: f}, args
		}
	}
	callee := w.opd(c, cc.Value)
	var bi *ssa.Builtin
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		bi = b
		var ats []types.Type
		for _, a := range cc.Args {
			ats = append(ats, a.Type())
		}
		name := bi.Name()
		resT := cc.Signature().Results()
		cl := &closure{nat: func(fr *frame, args []value) value {
			return fr.w.builtin(fr, name, args, ats, resT)
		}}
		return func(fr *frame) (*closure, []value) {
			args := make([]value, len(as))
			for i := range as {
				args[i] = fr.get(&as[i])
			}
			return cl, args
		}
	}
	return func(fr *frame) (*closure, []value) {
		cl, _ := fr.get(&callee).(*closure)
		args := make([]value, len(as))
		for i := range as {
			args[i] = fr.get(&as[i])
		}
		return cl, args
	}
}

type methodKey struct {
	t types.Type
	m *types.Func
}

func (w *worker) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	k := methodKey{t, m}
	if f := w.methods[k]; f != nil {
		return f
	}
	f := w.eng.prog.LookupMethod(t, m.Pkg(), m.Name())
	if f == nil {
		panic(pathEnd{"unsupported", "no method " + m.Name() + " on " + t.String()})
	}
	w.methods[k] = f
	return f
}

func (w *worker) callValue(fr *frame, cl *closure, args []value) value {
	if cl == nil {
		w.throw("invalid memory address or nil pointer dereference")
	}
	if cl.nat != nil {
		return cl.nat(fr, args)
	}
	if cl.bi != "" {
		return w.builtin(fr, cl.bi, args, nil, nil)
	}
	return w.call(fr, w.fn(cl.f), args, cl.env)
}

func (w *worker) builtin(fr *frame, name string, args []value, ats []types.Type, resT *types.Tuple) value {
	tb := w.tb
	num := func(n int) value { return tb.Const(64, uint64(n)) }
	switch name {
	case "len":
		switch x := args[0].(type) {
		case str:
			return num(x.len())
		case []value:
			return num(len(x))
		case agg:
			return num(len(x))
		case *value:
			return num(int(under(under(ats[0]).(*types.Pointer).Elem()).(*types.Array).Len()))
		case *mapv:
			if x == nil {
				return num(0)
			}
			w.raceMap(x, false)
			return num(x.n)
		case *chanv:
			if x == nil {
				return num(0)
			}
			return num(len(x.buf))
		}
	case "cap":
		switch x := args[0].(type) {
		case []value:
			return num(cap(x))
		case agg:
			return num(len(x))
		case *value:
			return num(int(under(under(ats[0]).(*types.Pointer).Elem()).(*types.Array).Len()))
		case *chanv:
			if x == nil {
				return num(0)
			}
			return num(x.cap)
		}
	case "append":
		s := args[0].([]value)
		et := under(ats[0]).(*types.Slice).Elem()
		switch y := args[1].(type) {
		case []value:
			if w.sched != nil {
				for i := range y {
					w.raceAccess(&y[i], false)
				}
			}
			return w.appendVals(s, y, et)
		case str:
			return w.appendVals(s, w.mkBytes(w.strBytes(y)), et)
		}
	case "copy":
		d := args[0].([]value)
		switch s := args[1].(type) {
		case []value:
			n := min(len(d), len(s))
			if w.sched != nil {
				for i := 0; i < n; i++ {
					w.raceAccess(&s[i], false)
					w.raceAccess(&d[i], true)
				}
			}
			tmp := make([]value, n)
			for i := range tmp {
				tmp[i] = copyVal(s[i])
			}
			for i := range tmp {
				storeCell(&d[i], tmp[i])
			}
			return num(n)
		case str:
			n := min(len(d), s.len())
			for i := 0; i < n; i++ {
				d[i] = w.strByte(s, i)
			}
			return num(n)
		}
	case "delete":
		if m := args[0].(*mapv); m != nil {
			w.raceMap(m, true)
			w.mapDelete(m, args[1])
		}
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *mapv:
			if x != nil {
				for _, e := range x.entries {
					e.dead = true
				}
				*x = *newMap()
			}
		case []value:
			z := under(ats[0]).(*types.Slice).Elem()
			for i := range x {
				storeCell(&x[i], w.zero(z))
			}
		}
		return nil
	case "panic":
		v := args[0].(iface)
		panic(&targetPanic{v: v, msg: w.panicText(v)})
	case "recover":
		if fr.caller != nil && fr.caller.panicking != nil {
			p := fr.caller.panicking
			fr.caller.panicking = nil
			if p.v.t == nil {
				return iface{types.Typ[types.String], str{s: p.msg}}
			}
			return p.v
		}
		return iface{}
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			var c *Term
			switch x := r.(type) {
			case *Term:
				y := a.(*Term)
				switch {
				case x.w < 0:
					c = tb.FCmp(OpFLt, y, x)
				case isSigned(ats[0]):
					c = tb.Slt(y, x)
				default:
					c = tb.Ult(y, x)
				}
				if name == "max" {
					if x.w < 0 {
						c = tb.FCmp(OpFLt, x, y)
					} else if isSigned(ats[0]) {
						c = tb.Slt(x, y)
					} else {
						c = tb.Ult(x, y)
					}
				}
				if x.w < 0 {
					if w.branch(c) {
						r = a
					}
				} else {
					r = tb.Ite(c, y, x)
				}
			case str:
				if name == "min" {
					c = w.strLess(a.(str), x, false)
				} else {
					c = w.strLess(x, a.(str), false)
				}
				if w.branch(c) {
					r = a
				}
			}
		}
		return r
	case "print", "println":
		return nil
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*value); ok && p == nil {
			w.throw("value method called using nil pointer")
		}
		return args[0]
	case "close":
		args[0].(*chanv).closed = true
		return nil
	case "SliceData":
		return sliceData{args[0].([]value)}
	case "StringData":
		return stringData{args[0].(str)}
	case "String":
		n := int(w.intOf(args[1], true))
		switch x := args[0].(type) {
		case sliceData:
			return mkStr(w.bytesOf(x.s[:n]))
		case stringData:
			return x.s.slice(0, n)
		case *value:
			if n == 0 {
				return str{}
			}
		}
	case "Slice":
		n := int(w.intOf(args[1], true))
		switch x := args[0].(type) {
		case sliceData:
			return x.s[:n:n]
		case stringData:
			return w.mkBytes(w.strBytes(x.s.slice(0, n)))
		}
	}
	panic(pathEnd{"unsupported", fmt.Sprintf("builtin %s on %T", name, args[0])})
}
