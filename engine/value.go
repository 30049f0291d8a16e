package main

// Run-time values of the symbolic interpreter.
//
//   *Term            booleans, integers, floats
//   str              strings
//   *value           pointers (nil pointer: (*value)(nil))
//   symPtr           pointer to a scalar slice/array element at a symbolic index
//   agg              structs and arrays (immutable in registers, mutable in cells)
//   []value          slices
//   *mapv            maps
//   iface            interfaces
//   *closure         functions (nil func: (*closure)(nil))
//   tuple            multiple results
//   rvalue, rtype    modelled reflect.Value / reflect.Type
//   *hashObj         modelled hash state

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type value interface{}

type agg []value
type tuple []value

type str struct {
	s string
	b []*Term // non-nil when some byte is symbolic
}

func (s str) len() int {
	if s.b != nil {
		return len(s.b)
	}
	return len(s.s)
}

func (w *worker) strByte(s str, i int) *Term {
	if s.b != nil {
		return s.b[i]
	}
	return w.tb.small[8][s.s[i]]
}

func (w *worker) strBytes(s str) []*Term {
	if s.b != nil {
		return s.b
	}
	out := make([]*Term, len(s.s))
	for i := range out {
		out[i] = w.tb.small[8][s.s[i]]
	}
	return out
}

func mkStr(b []*Term) str {
	for _, t := range b {
		if !t.isConst() {
			return str{b: b}
		}
	}
	out := make([]byte, len(b))
	for i, t := range b {
		out[i] = byte(t.val)
	}
	return str{s: string(out)}
}

func (s str) slice(lo, hi int) str {
	if s.b != nil {
		return mkStr(s.b[lo:hi])
	}
	return str{s: s.s[lo:hi]}
}

type iface struct {
	t types.Type
	v value
}

type closure struct {
	f   *ssa.Function
	env []value
	bi  string                              // builtin name
	nat func(fr *frame, args []value) value // engine-provided function
}

type symPtr struct {
	elems []value
	idx   *Term
}

type sliceData struct{ s []value } // unsafe.SliceData
type stringData struct{ s str }    // unsafe.StringData
type unsafePtr struct{ p value }   // unsafe.Pointer holding another pointer

type mapEntry struct {
	k, v value
	dead bool
}

type mapv struct {
	entries []*mapEntry
	idx     map[string]*mapEntry // concrete keys
	symKeys int                  // live entries with symbolic keys
	n       int
}

type mapIter struct {
	m     *mapv
	i     int
	order []*mapEntry
}

type strIter struct {
	s str
	i int
}

type targetPanic struct {
	v     iface
	msg   string
	rt    bool // runtime error
	where string
}

type pathEnd struct {
	kind string // done, assume, unsupported, steps, deadline, violation, killed
	msg  string
}

func isNilPtr(v value) bool {
	p, ok := v.(*value)
	return ok && p == nil
}

// ---- types ----

var sizes64 = types.SizesFor("gc", "amd64")

func under(t types.Type) types.Type { return t.Underlying() }

// scalarWidth gives the term width for basic scalar types.
func scalarWidth(t types.Type) (w int16, signed bool, ok bool) {
	b, isB := under(t).(*types.Basic)
	if !isB {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return wBool, false, true
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int64, types.Int, types.UntypedInt:
		return 64, true, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint64, types.Uint, types.Uintptr:
		return 64, false, true
	case types.Float64, types.UntypedFloat:
		return wF64, true, true
	case types.Float32:
		return wF32, true, true
	}
	return 0, false, false
}

func isReflectValue(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == "Value" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "reflect"
}

func (w *worker) zero(t types.Type) value {
	if isReflectValue(t) {
		return rvalue{}
	}
	switch u := under(t).(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return str{}
		}
		if u.Kind() == types.UnsafePointer {
			return (*value)(nil)
		}
		wd, _, ok := scalarWidth(t)
		if !ok {
			panic(pathEnd{"unsupported", "zero of " + t.String()})
		}
		return w.tb.Const(wd, 0)
	case *types.Pointer:
		return (*value)(nil)
	case *types.Slice:
		return []value(nil)
	case *types.Map:
		return (*mapv)(nil)
	case *types.Chan:
		return (*chanv)(nil)
	case *types.Signature:
		return (*closure)(nil)
	case *types.Interface:
		return iface{}
	case *types.Struct:
		a := make(agg, u.NumFields())
		for i := range a {
			a[i] = w.zero(u.Field(i).Type())
		}
		return a
	case *types.Array:
		n := int(u.Len())
		if n > 1<<22 {
			panic(pathEnd{"unsupported", "huge array"})
		}
		a := make(agg, n)
		if _, _, ok := scalarWidth(u.Elem()); ok && n > 0 {
			z := w.zero(u.Elem())
			for i := range a {
				a[i] = z
			}
			return a
		}
		for i := range a {
			a[i] = w.zero(u.Elem())
		}
		return a
	case *types.Tuple:
		a := make(tuple, u.Len())
		for i := range a {
			a[i] = w.zero(u.At(i).Type())
		}
		return a
	}
	panic(pathEnd{"unsupported", "zero of " + t.String()})
}

func copyVal(v value) value {
	if a, ok := v.(agg); ok {
		c := make(agg, len(a))
		for i, e := range a {
			switch e.(type) {
			case agg:
				c[i] = copyVal(e)
			default:
				c[i] = e
			}
		}
		return c
	}
	return v
}

func storeCell(p *value, v value) {
	if src, ok := v.(agg); ok {
		if dst, ok := (*p).(agg); ok && len(dst) == len(src) {
			if len(src) > 0 && &dst[0] == &src[0] {
				return
			}
			tmp := src
			for i := range dst {
				if _, isAgg := tmp[i].(agg); isAgg {
					storeCell(&dst[i], tmp[i])
				} else {
					dst[i] = tmp[i]
				}
			}
			return
		}
		*p = copyVal(v)
		return
	}
	*p = v
}

// ---- equality ----

// wordsOf gives the elements of an array of same-sized integers.
func wordsOf(a agg) ([]*Term, bool) {
	ts := make([]*Term, len(a))
	for i, v := range a {
		t, ok := v.(*Term)
		if !ok || t.w <= 0 || t.w != 8 {
			return nil, false
		}
		ts[i] = t
	}
	return ts, len(ts) > 0
}

// eq compares two values of static type t, as a term.
func (w *worker) eq(a, b value) *Term {
	tb := w.tb
	switch x := a.(type) {
	case *Term:
		y := b.(*Term)
		if x.w < 0 {
			return tb.FCmp(OpFEq, x, y)
		}
		return tb.Eq(x, y)
	case str:
		return w.strEq(x, b.(str))
	case *value:
		y, ok := b.(*value)
		if !ok {
			if sp, ok := b.(symPtr); ok && x == nil {
				_ = sp
				return tb.False
			}
			if up, ok := b.(unsafePtr); ok {
				return w.eq(a, up.p)
			}
			panic(pathEnd{"unsupported", fmt.Sprintf("pointer comparison %T", b)})
		}
		return tb.Bool(x == y)
	case symPtr:
		if y, ok := b.(*value); ok && y == nil {
			return tb.False
		}
		panic(pathEnd{"unsupported", "symbolic pointer comparison"})
	case agg:
		y := b.(agg)
		if xs, ok := wordsOf(x); ok {
			if ys, ok := wordsOf(y); ok && len(xs) == len(ys) {
				return tb.EqSeq(xs, ys)
			}
		}
		ts := make([]*Term, 0, len(x))
		for i := range x {
			t := w.eq(x[i], y[i])
			if t == tb.False {
				return t
			}
			ts = append(ts, t)
		}
		return tb.And(ts...)
	case iface:
		y := b.(iface)
		if x.t == nil || y.t == nil {
			return tb.Bool(x.t == nil && y.t == nil)
		}
		if !types.Identical(x.t, y.t) {
			return tb.False
		}
		if rx, ok := x.v.(rtype); ok {
			ry, ok := y.v.(rtype)
			return tb.Bool(ok && types.Identical(rx.t, ry.t))
		}
		if !types.Comparable(x.t) {
			w.throw("comparing uncomparable type " + x.t.String())
		}
		return w.eq(x.v, y.v)
	case []value:
		y := b.([]value)
		if x != nil && y != nil {
			panic(pathEnd{"unsupported", "slice comparison"})
		}
		return tb.Bool(x == nil && y == nil)
	case *mapv:
		return tb.Bool(x == b.(*mapv))
	case *closure:
		y := b.(*closure)
		return tb.Bool(x == nil && y == nil)
	case *chanv:
		return tb.Bool(x == b.(*chanv))
	case *hashObj:
		return tb.Bool(x == b.(*hashObj))
	case rtype:
		y, ok := b.(rtype)
		return tb.Bool(ok && types.Identical(x.t, y.t))
	case rvalue:
		panic(pathEnd{"unsupported", "reflect.Value comparison"})
	case unsafePtr:
		return w.eq(x.p, b)
	}
	panic(pathEnd{"unsupported", fmt.Sprintf("eq on %T", a)})
}

func (w *worker) strEq(x, y str) *Term {
	tb := w.tb
	if x.len() != y.len() {
		return tb.False
	}
	if x.b == nil && y.b == nil {
		return tb.Bool(x.s == y.s)
	}
	xs, ys := make([]*Term, x.len()), make([]*Term, x.len())
	for i := range xs {
		xs[i], ys[i] = w.strByte(x, i), w.strByte(y, i)
	}
	return tb.EqSeq(xs, ys)
}

func (w *worker) strLess(x, y str, orEq bool) *Term {
	tb := w.tb
	if x.b == nil && y.b == nil {
		if orEq {
			return tb.Bool(x.s <= y.s)
		}
		return tb.Bool(x.s < y.s)
	}
	n := min(x.len(), y.len())
	res := tb.Bool(x.len() < y.len() || (orEq && x.len() == y.len()))
	for i := n - 1; i >= 0; i-- {
		a, b := w.strByte(x, i), w.strByte(y, i)
		res = tb.Or(tb.Ult(a, b), tb.And(tb.Eq(a, b), res))
	}
	return res
}

// keyString canonicalises a fully concrete map key.
func keyString(v value, sb *strings.Builder) bool {
	switch x := v.(type) {
	case *Term:
		if !x.isConst() {
			return false
		}
		sb.WriteByte('i')
		sb.WriteString(strconv.FormatUint(x.val, 16))
		sb.WriteByte(';')
		return true
	case str:
		if x.b != nil {
			return false
		}
		sb.WriteByte('s')
		sb.WriteString(strconv.Itoa(len(x.s)))
		sb.WriteByte(':')
		sb.WriteString(x.s)
		return true
	case agg:
		sb.WriteByte('{')
		for _, e := range x {
			if !keyString(e, sb) {
				return false
			}
		}
		sb.WriteByte('}')
		return true
	case iface:
		if x.t == nil {
			sb.WriteString("nil")
			return true
		}
		sb.WriteByte('<')
		sb.WriteString(types.TypeString(x.t, nil))
		sb.WriteByte('>')
		if rt, ok := x.v.(rtype); ok {
			sb.WriteString(types.TypeString(rt.t, nil))
			return true
		}
		return keyString(x.v, sb)
	case *value:
		fmt.Fprintf(sb, "p%p", x)
		return true
	}
	return false
}

func newMap() *mapv { return &mapv{idx: map[string]*mapEntry{}} }

// mapFind locates the entry for k, forking on symbolic key equality.
func (w *worker) mapFind(m *mapv, k value) *mapEntry {
	if m == nil || m.n == 0 {
		return nil
	}
	var sb strings.Builder
	conc := keyString(k, &sb)
	if conc {
		if e := m.idx[sb.String()]; e != nil {
			return e
		}
		if m.symKeys == 0 {
			return nil
		}
	}
	for _, e := range m.entries {
		if e.dead {
			continue
		}
		c := w.eq(e.k, k)
		if c == w.tb.False {
			continue
		}
		if w.branch(c) {
			return e
		}
	}
	return nil
}

func (w *worker) mapSet(m *mapv, k, v value) {
	if e := w.mapFind(m, k); e != nil {
		e.v = copyVal(v)
		return
	}
	e := &mapEntry{k: copyVal(k), v: copyVal(v)}
	m.entries = append(m.entries, e)
	m.n++
	var sb strings.Builder
	if keyString(k, &sb) {
		m.idx[sb.String()] = e
	} else {
		m.symKeys++
	}
}

func (w *worker) mapDelete(m *mapv, k value) {
	e := w.mapFind(m, k)
	if e == nil {
		return
	}
	w.mapRemove(m, e)
}

func (w *worker) mapRemove(m *mapv, e *mapEntry) {
	e.dead = true
	m.n--
	var sb strings.Builder
	if keyString(e.k, &sb) {
		delete(m.idx, sb.String())
	} else {
		m.symKeys--
	}
	if len(m.entries) > 32 && m.n < len(m.entries)/2 {
		live := m.entries[:0:0]
		for _, x := range m.entries {
			if !x.dead {
				live = append(live, x)
			}
		}
		m.entries = live
	}
}

// ---- capacity model (runtime.growslice) ----

var sizeClasses = []int{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundupsize(size int, noscan bool) int {
	req := size
	if !noscan && req > 512 {
		req += 8
	}
	if req <= 32768 {
		for _, c := range sizeClasses {
			if c >= req {
				return c - (req - size)
			}
		}
	}
	return (size + 8191) &^ 8191
}

func noPointers(t types.Type) bool {
	switch u := under(t).(type) {
	case *types.Basic:
		return u.Info()&types.IsString == 0 && u.Kind() != types.UnsafePointer
	case *types.Array:
		return u.Len() == 0 || noPointers(u.Elem())
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if !noPointers(u.Field(i).Type()) {
				return false
			}
		}
		return true
	}
	return false
}

func growCap(oldCap, newLen int, elem types.Type) int {
	newcap := oldCap
	double := newcap + newcap
	if newLen > double {
		newcap = newLen
	} else if oldCap < 256 {
		newcap = double
	} else {
		for newcap < newLen {
			newcap += (newcap + 3*256) >> 2
		}
	}
	es := int(sizes64.Sizeof(elem))
	if es == 0 {
		return newLen
	}
	return max(roundupsize(newcap*es, noPointers(elem))/es, newLen)
}

func (w *worker) appendVals(s []value, add []value, elem types.Type) []value {
	if len(add) == 0 {
		return s
	}
	n := len(s) + len(add)
	if n <= cap(s) {
		dst := s[len(s):n]
		if w.sched != nil {
			for i := range dst {
				w.raceAccess(&dst[i], true)
			}
		}
		for i, v := range add {
			dst[i] = copyVal(v)
		}
		return s[:n]
	}
	c := growCap(cap(s), n, elem)
	out := make([]value, n, c)
	for i, v := range s {
		out[i] = copyVal(v)
	}
	if w.sched != nil {
		for i := range s {
			w.raceAccess(&s[i], false)
		}
	}
	for i := len(s); i < n; i++ {
		out[i] = copyVal(add[i-len(s)])
	}
	if c > n {
		full := out[:c]
		if _, _, ok := scalarWidth(elem); ok {
			z := w.zero(elem)
			for i := n; i < c; i++ {
				full[i] = z
			}
		} else {
			for i := n; i < c; i++ {
				full[i] = w.zero(elem)
			}
		}
	}
	return out
}
