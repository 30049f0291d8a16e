package main

// Models of functions that are not interpreted from source.

import (
	"crypto/ed25519"
	"crypto/sha256"
	"fmt"
	"go/types"
	"math/big"
	"math/bits"
	"strconv"
	"strings"
	"unicode/utf8"

	"golang.org/x/crypto/blake2b"
)

type hashObj struct {
	kind string
	buf  []*Term
}

var intrTable map[string]intrinsic

func lookupIntrinsic(name string) intrinsic { return intrTable[name] }

func init() {
	intrTable = map[string]intrinsic{}
	reg := func(n string, f intrinsic) { intrTable[n] = f }
	registerReflect(reg)
	registerStd(reg)
	registerCrypto(reg)
	registerSync(reg)
	registerSym(reg)
}

func (w *worker) namedType(pkg, name string) types.Type {
	p := w.eng.prog.ImportedPackage(pkg)
	if p == nil {
		panic(pathEnd{"unsupported", "package " + pkg + " not loaded"})
	}
	return p.Pkg.Scope().Lookup(name).Type()
}

// callMethod calls a method by name on an interface value.
func (w *worker) callMethod(fr *frame, x iface, name string, args ...value) (value, bool) {
	if x.t == nil {
		return nil, false
	}
	if _, ok := x.v.(rtype); ok {
		return nil, false
	}
	sel := w.eng.prog.MethodSets.MethodSet(x.t).Lookup(nil, name)
	if sel == nil {
		return nil, false
	}
	f := w.eng.prog.MethodValue(sel)
	if f == nil {
		return nil, false
	}
	return w.call(fr, w.fn(f), append([]value{x.v}, args...), nil), true
}

func (w *worker) hasMethod(t types.Type, name string) *types.Signature {
	sel := w.eng.prog.MethodSets.MethodSet(t).Lookup(nil, name)
	if sel == nil {
		return nil
	}
	return sel.Type().(*types.Signature)
}

func (w *worker) isError(x iface) bool {
	if x.t == nil {
		return false
	}
	it := types.Universe.Lookup("error").Type().Underlying().(*types.Interface)
	return types.Implements(x.t, it)
}

func (w *worker) newError(msg str) value {
	p := new(value)
	*p = agg{msg}
	return iface{types.NewPointer(w.namedType("errors", "errorString")), p}
}

// ---- formatting ----

const hexl, hexu = "0123456789abcdef", "0123456789ABCDEF"

func (w *worker) hexDigit(n *Term, tab string) *Term { // n: 8-bit 0..15
	ts := make([]*Term, 16)
	for i := range ts {
		ts[i] = w.tb.small[8][tab[i]]
	}
	return w.table(ts, n)
}

func (w *worker) hexBytes(b []*Term, tab string) []*Term {
	var out []*Term
	for _, t := range b {
		out = append(out, w.hexDigit(w.tb.Lshr(t, w.tb.Const(8, 4)), tab), w.hexDigit(w.tb.BAnd(t, w.tb.Const(8, 15)), tab))
	}
	return out
}

// concrete converts a value to a Go value for package fmt.
func (w *worker) concrete(t types.Type, v value) (interface{}, bool) {
	switch x := v.(type) {
	case *Term:
		if !x.isConst() {
			return nil, false
		}
		switch kindOf(t).String() {
		case "bool":
			return x.val != 0, true
		case "int":
			return int(x.val), true
		case "int8":
			return int8(x.val), true
		case "int16":
			return int16(x.val), true
		case "int32":
			return int32(x.val), true
		case "int64":
			return int64(x.val), true
		case "uint":
			return uint(x.val), true
		case "uint8":
			return uint8(x.val), true
		case "uint16":
			return uint16(x.val), true
		case "uint32":
			return uint32(x.val), true
		case "uint64", "uintptr":
			return x.val, true
		case "float64":
			return fval(x), true
		}
	case str:
		if x.b == nil {
			return x.s, true
		}
	case []value:
		if st, ok := under(t).(*types.Slice); ok && kindOf(st.Elem()).String() == "uint8" {
			out := make([]byte, len(x))
			for i, e := range x {
				et := e.(*Term)
				if !et.isConst() {
					return nil, false
				}
				out[i] = byte(et.val)
			}
			return out, true
		}
	case agg:
		if at, ok := under(t).(*types.Array); ok && kindOf(at.Elem()).String() == "uint8" {
			return w.concrete(types.NewSlice(at.Elem()), []value(x))
		}
	}
	return nil, false
}

func byteSeq(t types.Type, v value) ([]*Term, bool) {
	var et types.Type
	var es []value
	switch u := under(t).(type) {
	case *types.Slice:
		et, es = u.Elem(), v.([]value)
	case *types.Array:
		et, es = u.Elem(), v.(agg)
	default:
		return nil, false
	}
	if kindOf(et).String() != "uint8" {
		return nil, false
	}
	out := make([]*Term, len(es))
	for i, e := range es {
		out[i] = e.(*Term)
	}
	return out, true
}

func (w *worker) fmtArg(fr *frame, flags string, verb byte, arg value, exact bool) []*Term {
	lit := func(s string) []*Term { return w.strBytes(str{s: s}) }
	x := arg.(iface)
	if x.t == nil {
		return lit(fmt.Sprintf("%"+flags+string(verb), nil))
	}
	if rt, ok := x.v.(rtype); ok {
		return lit(typeString(rt.t))
	}
	if verb == 'T' {
		return lit(typeString(x.t))
	}
	if verb == 'w' {
		verb = 'v'
	}
	if strings.IndexByte("vsxXq", verb) >= 0 && !strings.Contains(flags, "#") {
		for _, m := range []string{"Error", "String"} {
			sig := w.hasMethod(x.t, m)
			if sig == nil || sig.Params().Len() != 0 || sig.Results().Len() != 1 || kindOf(sig.Results().At(0).Type()).String() != "string" {
				continue
			}
			if p, ok := x.v.(*value); ok && p == nil {
				return lit("<nil>")
			}
			if !exact {
				w.inexact++
			}
			r, ok := w.callMethod(fr, x, m)
			if !exact {
				w.inexact--
			}
			if ok {
				x = iface{types.Typ[types.String], r}
				break
			}
		}
	}
	if kindOf(x.t).String() == "ptr" {
		p, ok := x.v.(*value)
		if ok && p != nil {
			et := under(x.t).(*types.Pointer).Elem()
			if _, isBytes := byteSeq(et, *p); isBytes {
				if strings.IndexByte("xX", verb) >= 0 {
					b, _ := byteSeq(et, *p)
					tab := hexl
					if verb == 'X' {
						tab = hexu
					}
					return append(lit("&"), w.hexBytes(b, tab)...)
				}
			}
		}
		return lit("0xc000000000")
	}
	if g, ok := w.concrete(x.t, x.v); ok {
		return lit(fmt.Sprintf("%"+flags+string(verb), g))
	}
	tab := hexl
	if verb == 'X' {
		tab = hexu
	}
	switch v := x.v.(type) {
	case str:
		switch verb {
		case 's', 'v':
			if flags == "" {
				return w.strBytes(v)
			}
		case 'x', 'X':
			return w.hexBytes(w.strBytes(v), tab)
		}
	case *Term:
		if v.w == 8 && flags == "02" && (verb == 'x' || verb == 'X') {
			return w.hexBytes([]*Term{v}, tab)
		}
		if !exact {
			return lit("?")
		}
		if v.w == 8 && verb == 'x' && flags == "" {
			if w.branch(w.tb.Ult(v, w.tb.Const(8, 16))) {
				return []*Term{w.hexDigit(v, tab)}
			}
			return w.hexBytes([]*Term{v}, tab)
		}
		if v.w == 32 && verb == 'c' {
			return w.runeBytes(v)
		}
		g, ok := w.concrete(x.t, w.concretize(v))
		if ok {
			return lit(fmt.Sprintf("%"+flags+string(verb), g))
		}
	default:
		if b, ok := byteSeq(x.t, x.v); ok {
			switch verb {
			case 'x', 'X':
				return w.hexBytes(b, tab)
			case 's':
				return b
			}
		}
	}
	if !exact {
		return lit("?")
	}
	panic(pathEnd{"unsupported", "formatting " + x.t.String() + " with %" + flags + string(verb)})
}

func (w *worker) sprintf(fr *frame, format str, args []value, exact bool) str {
	if format.b != nil {
		panic(pathEnd{"unsupported", "symbolic format string"})
	}
	exact = exact && w.inexact == 0
	var out []*Term
	lit := func(s string) { out = append(out, w.strBytes(str{s: s})...) }
	f := format.s
	ai := 0
	for i := 0; i < len(f); {
		j := strings.IndexByte(f[i:], '%')
		if j < 0 {
			lit(f[i:])
			break
		}
		lit(f[i : i+j])
		i += j + 1
		st := i
		for i < len(f) && strings.IndexByte("+-# 0123456789.", f[i]) >= 0 {
			i++
		}
		if i >= len(f) {
			lit("%!(NOVERB)")
			break
		}
		flags, verb := f[st:i], f[i]
		i++
		if verb == '%' {
			lit("%")
			continue
		}
		if verb >= utf8.RuneSelf || verb == '*' || verb == '[' {
			panic(pathEnd{"unsupported", "format " + f})
		}
		if ai >= len(args) {
			lit("%!" + string(verb) + "(MISSING)")
			continue
		}
		out = append(out, w.fmtArg(fr, flags, verb, args[ai], exact)...)
		ai++
	}
	if ai < len(args) {
		lit("%!(EXTRA)")
	}
	return mkStr(out)
}

func (w *worker) sprint(fr *frame, args []value, ln, exact bool) str {
	exact = exact && w.inexact == 0
	var out []*Term
	prevStr := true
	for i, a := range args {
		x := a.(iface)
		isStr := x.t != nil && kindOf(x.t).String() == "string"
		if i > 0 && (ln || (!isStr && !prevStr)) {
			out = append(out, w.tb.small[8][' '])
		}
		prevStr = isStr
		out = append(out, w.fmtArg(fr, "", 'v', a, exact)...)
	}
	if ln {
		out = append(out, w.tb.small[8]['\n'])
	}
	return mkStr(out)
}

// ---- standard library ----

func (w *worker) writeTo(fr *frame, dst value, s str) value {
	r, ok := w.callMethod(fr, dst.(iface), "Write", value(w.mkBytes(w.strBytes(s))))
	if !ok {
		w.throw("invalid memory address or nil pointer dereference")
	}
	return r
}

func asStr(w *worker, v value) str {
	switch x := v.(type) {
	case str:
		return x
	case []value:
		return mkStr(w.bytesOf(x))
	}
	panic(pathEnd{"unsupported", "string-like value"})
}

func (w *worker) popcount(t *Term) *Term {
	r := w.tb.Const(64, 0)
	for i := int16(0); i < t.w; i++ {
		r = w.tb.Add(r, w.tb.Zext(w.tb.Extract(t, i, 1), 64))
	}
	return r
}

func registerStd(reg func(string, intrinsic)) {
	// fmt
	reg("fmt.Sprintf", func(fr *frame, a []value) value {
		return fr.w.sprintf(fr, a[0].(str), a[1].([]value), true)
	})
	reg("fmt.Sprint", func(fr *frame, a []value) value { return fr.w.sprint(fr, a[0].([]value), false, true) })
	reg("fmt.Sprintln", func(fr *frame, a []value) value { return fr.w.sprint(fr, a[0].([]value), true, true) })
	nop3 := func(fr *frame, a []value) value { return tuple{fr.w.num64(0), iface{}} }
	reg("fmt.Print", nop3)
	reg("fmt.Printf", nop3)
	reg("fmt.Println", nop3)
	reg("fmt.Fprintf", func(fr *frame, a []value) value {
		return fr.w.writeTo(fr, a[0], fr.w.sprintf(fr, a[1].(str), a[2].([]value), true))
	})
	reg("fmt.Fprint", func(fr *frame, a []value) value {
		return fr.w.writeTo(fr, a[0], fr.w.sprint(fr, a[1].([]value), false, true))
	})
	reg("fmt.Fprintln", func(fr *frame, a []value) value {
		return fr.w.writeTo(fr, a[0], fr.w.sprint(fr, a[1].([]value), true, true))
	})
	reg("fmt.Errorf", func(fr *frame, a []value) value {
		w := fr.w
		f := a[0].(str)
		args := a[1].([]value)
		msg := w.sprintf(fr, f, args, false)
		var wrapped []value
		ai := 0
		for i := 0; i+1 < len(f.s); i++ {
			if f.s[i] != '%' {
				continue
			}
			i++
			for i < len(f.s)-1 && strings.IndexByte("+-# 0123456789.", f.s[i]) >= 0 {
				i++
			}
			if f.s[i] == '%' {
				continue
			}
			if f.s[i] == 'w' && ai < len(args) && w.isError(args[ai].(iface)) {
				wrapped = append(wrapped, args[ai])
			}
			ai++
		}
		switch len(wrapped) {
		case 0:
			return w.newError(msg)
		case 1:
			p := new(value)
			*p = agg{msg, wrapped[0]}
			return iface{types.NewPointer(w.namedType("fmt", "wrapError")), p}
		}
		p := new(value)
		*p = agg{msg, wrapped}
		return iface{types.NewPointer(w.namedType("fmt", "wrapErrors")), p}
	})
	// errors
	var is func(fr *frame, err, target iface) bool
	is = func(fr *frame, err, target iface) bool {
		w := fr.w
		for err.t != nil {
			if target.t != nil && types.Comparable(target.t) && types.Identical(err.t, target.t) && w.branch(w.eq(err, target)) {
				return true
			}
			if sig := w.hasMethod(err.t, "Is"); sig != nil && sig.Params().Len() == 1 {
				if r, ok := w.callMethod(fr, err, "Is", target); ok && w.branch(r.(*Term)) {
					return true
				}
			}
			sig := w.hasMethod(err.t, "Unwrap")
			if sig == nil || sig.Results().Len() != 1 {
				return false
			}
			r, _ := w.callMethod(fr, err, "Unwrap")
			switch x := r.(type) {
			case iface:
				err = x
			case []value:
				for _, e := range x {
					if is(fr, e.(iface), target) {
						return true
					}
				}
				return false
			}
		}
		return false
	}
	reg("errors.Is", func(fr *frame, a []value) value {
		err, target := a[0].(iface), a[1].(iface)
		if err.t == nil || target.t == nil {
			return fr.w.tb.Bool(err.t == nil && target.t == nil)
		}
		return fr.w.tb.Bool(is(fr, err, target))
	})
	reg("errors.As", func(fr *frame, a []value) value {
		w := fr.w
		err, target := a[0].(iface), a[1].(iface)
		if err.t == nil {
			return w.tb.False
		}
		pt, ok := target.t.(*types.Pointer)
		if !ok {
			w.rpanic("errors: target must be a non-nil pointer")
		}
		cell := target.v.(*value)
		for err.t != nil {
			if types.AssignableTo(err.t, pt.Elem()) {
				if types.IsInterface(pt.Elem()) {
					storeCell(cell, err)
				} else {
					storeCell(cell, err.v)
				}
				return w.tb.True
			}
			r, ok := w.callMethod(fr, err, "Unwrap")
			if !ok {
				return w.tb.False
			}
			x, ok := r.(iface)
			if !ok {
				panic(pathEnd{"unsupported", "errors.As on a joined error"})
			}
			err = x
		}
		return w.tb.False
	})
	// sort
	sorter := func(fr *frame, a []value) value {
		w := fr.w
		s := a[0].(iface).v.([]value)
		less := a[1].(*closure)
		for i := 1; i < len(s); i++ {
			for j := i; j > 0; j-- {
				r := w.callValue(fr, less, []value{w.num64(j), w.num64(j - 1)})
				if !w.branch(r.(*Term)) {
					break
				}
				x, y := copyVal(s[j]), copyVal(s[j-1])
				storeCell(&s[j], y)
				storeCell(&s[j-1], x)
			}
		}
		return nil
	}
	reg("sort.Slice", sorter)
	reg("sort.SliceStable", sorter)
	// strings and bytes
	reg("(*strings.Builder).copyCheck", func(fr *frame, a []value) value { return nil })
	reg("internal/bytealg.MakeNoZero", func(fr *frame, a []value) value {
		n := fr.w.makeLen(a[0].(*Term), true, "len")
		return fr.w.makeSlice(types.Typ[types.Uint8], n, n)
	})
	indexByte := func(fr *frame, a []value) value {
		w := fr.w
		s := asStr(w, a[0])
		c := a[1].(*Term)
		for i := 0; i < s.len(); i++ {
			if w.branch(w.tb.Eq(w.strByte(s, i), c)) {
				return w.num64(i)
			}
		}
		return w.tb.Const(64, ^uint64(0))
	}
	for _, n := range []string{"internal/bytealg.IndexByte", "internal/bytealg.IndexByteString", "strings.IndexByte", "bytes.IndexByte"} {
		reg(n, indexByte)
	}
	lastIndexByte := func(fr *frame, a []value) value {
		w := fr.w
		s := asStr(w, a[0])
		for i := s.len() - 1; i >= 0; i-- {
			if w.branch(w.tb.Eq(w.strByte(s, i), a[1].(*Term))) {
				return w.num64(i)
			}
		}
		return w.tb.Const(64, ^uint64(0))
	}
	for _, n := range []string{"internal/bytealg.LastIndexByte", "internal/bytealg.LastIndexByteString"} {
		reg(n, lastIndexByte)
	}
	index := func(fr *frame, a []value) value {
		w := fr.w
		s, t := asStr(w, a[0]), asStr(w, a[1])
		for i := 0; i+t.len() <= s.len(); i++ {
			if w.branch(w.strEq(s.slice(i, i+t.len()), t)) {
				return w.num64(i)
			}
		}
		return w.tb.Const(64, ^uint64(0))
	}
	for _, n := range []string{"internal/bytealg.Index", "internal/bytealg.IndexString", "strings.Index", "bytes.Index"} {
		reg(n, index)
	}
	count := func(fr *frame, a []value) value {
		w := fr.w
		r := w.tb.Const(64, 0)
		for _, b := range w.strBytes(asStr(w, a[0])) {
			r = w.tb.Add(r, w.tb.Ite(w.tb.Eq(b, a[1].(*Term)), w.tb.Const(64, 1), w.tb.Const(64, 0)))
		}
		return r
	}
	reg("internal/bytealg.Count", count)
	reg("internal/bytealg.CountString", count)
	eqf := func(fr *frame, a []value) value { return fr.w.strEq(asStr(fr.w, a[0]), asStr(fr.w, a[1])) }
	reg("internal/bytealg.Equal", eqf)
	reg("bytes.Equal", eqf)
	cmp := func(fr *frame, a []value) value {
		w := fr.w
		x, y := asStr(w, a[0]), asStr(w, a[1])
		lt, gt := w.strLess(x, y, false), w.strLess(y, x, false)
		return w.tb.Ite(lt, w.tb.Const(64, ^uint64(0)), w.tb.Ite(gt, w.tb.Const(64, 1), w.tb.Const(64, 0)))
	}
	for _, n := range []string{"internal/bytealg.Compare", "internal/bytealg.CompareString", "bytes.Compare", "strings.Compare", "runtime.cmpstring"} {
		reg(n, cmp)
	}
	// math/bits
	// Sums with explicit carries, in the form solvers like.
	for _, n := range []string{"", "64"} {
		reg("math/bits.Add"+n, func(fr *frame, a []value) value {
			tb, x, y, c := fr.w.tb, a[0].(*Term), a[1].(*Term), a[2].(*Term)
			s := tb.Add(x, y)
			carry := tb.Ult(s, x)
			s2 := tb.Add(s, c)
			return tuple{s2, tb.BoolToBV(tb.Or(carry, tb.Ult(s2, s)), 64)}
		})
		reg("math/bits.Sub"+n, func(fr *frame, a []value) value {
			tb, x, y, c := fr.w.tb, a[0].(*Term), a[1].(*Term), a[2].(*Term)
			d := tb.Sub(x, y)
			return tuple{tb.Sub(d, c), tb.BoolToBV(tb.Or(tb.Ult(x, y), tb.Ult(d, c)), 64)}
		})
	}
	for _, n := range []string{"OnesCount", "OnesCount8", "OnesCount16", "OnesCount32", "OnesCount64"} {
		reg("math/bits."+n, func(fr *frame, a []value) value { return fr.w.popcount(a[0].(*Term)) })
	}
	for _, n := range []string{"Len", "Len8", "Len16", "Len32", "Len64"} {
		reg("math/bits."+n, func(fr *frame, a []value) value {
			t := a[0].(*Term)
			if t.isConst() {
				return fr.w.num64(bits.Len64(t.val))
			}
			r := fr.w.tb.Const(64, 0)
			for i := int16(0); i < t.w; i++ {
				r = fr.w.tb.Ite(fr.w.tb.Eq(fr.w.tb.Extract(t, i, 1), fr.w.tb.Const(1, 1)), fr.w.tb.Const(64, uint64(i)+1), r)
			}
			return r
		})
	}
	for n, wd := range map[string]int16{"TrailingZeros": 64, "TrailingZeros8": 8, "TrailingZeros16": 16, "TrailingZeros32": 32, "TrailingZeros64": 64} {
		wd := wd
		reg("math/bits."+n, func(fr *frame, a []value) value {
			t := a[0].(*Term)
			r := fr.w.tb.Const(64, uint64(wd))
			for i := wd - 1; i >= 0; i-- {
				r = fr.w.tb.Ite(fr.w.tb.Eq(fr.w.tb.Extract(t, i, 1), fr.w.tb.Const(1, 1)), fr.w.tb.Const(64, uint64(i)), r)
			}
			return r
		})
	}
	// strconv with symbolic input: concretise
	reg("strconv.Itoa", func(fr *frame, a []value) value {
		return fr.w.signedDecimal(a[0].(*Term))
	})
	reg("strconv.FormatUint", func(fr *frame, a []value) value {
		if isNum(a[1], 10) {
			return fr.w.decimal(a[0].(*Term))
		}
		return str{s: strconv.FormatUint(fr.w.concretize(a[0].(*Term)).val, int(fr.w.concretize(a[1].(*Term)).val))}
	})
	reg("strconv.FormatInt", func(fr *frame, a []value) value {
		if isNum(a[1], 10) {
			return fr.w.signedDecimal(a[0].(*Term))
		}
		return str{s: strconv.FormatInt(int64(fr.w.concretize(a[0].(*Term)).val), int(fr.w.concretize(a[1].(*Term)).val))}
	})
	// runtime and others
	nop := func(fr *frame, a []value) value { return nil }
	for _, n := range []string{"runtime.KeepAlive", "runtime.Gosched", "runtime.GC", "runtime.SetFinalizer", "internal/race.Acquire", "internal/race.Release", "internal/race.Enable", "internal/race.Disable", "internal/race.ReadRange", "internal/race.WriteRange", "internal/race.Read", "internal/race.Write"} {
		reg(n, nop)
	}
	reg("os.init", nop)
	reg("math.Float64bits", func(fr *frame, a []value) value {
		t := a[0].(*Term)
		if !t.isConst() {
			panic(pathEnd{"unsupported", "math.Float64bits"})
		}
		return fr.w.tb.Const(64, t.val)
	})
	reg("math.Float64frombits", func(fr *frame, a []value) value {
		t := a[0].(*Term)
		if !t.isConst() {
			panic(pathEnd{"unsupported", "math.Float64frombits"})
		}
		return fr.w.tb.mk(OpConst, wF64, t.val, "")
	})
	fl := func(name string, f func(float64) float64) {
		reg(name, func(fr *frame, a []value) value {
			t := a[0].(*Term)
			if !t.isConst() {
				panic(pathEnd{"unsupported", name})
			}
			return fr.w.tb.Float(wF64, f(fval(t)))
		})
	}
	_ = fl
}

// ---- cryptography ----

func blakeReal(b []byte) []byte { h := blake2b.Sum256(b); return h[:] }
func shaReal(b []byte) []byte   { h := sha256.Sum256(b); return h[:] }
func edpubReal(seed []byte) []byte {
	k := ed25519.NewKeyFromSeed(seed)
	return append([]byte(nil), k[32:]...)
}
func edsigReal(in []byte) []byte {
	return ed25519.Sign(ed25519.NewKeyFromSeed(in[:32]), in[32:])
}

func (w *worker) blake(in []*Term) []*Term { return w.ideal("blake2b256", in, 32, true, blakeReal) }
func (w *worker) sha(in []*Term) []*Term   { return w.ideal("sha256", in, 32, true, shaReal) }

func aggOf(ts []*Term) agg {
	a := make(agg, len(ts))
	for i, t := range ts {
		a[i] = t
	}
	return a
}

func allConst(ts []*Term) ([]byte, bool) {
	out := make([]byte, len(ts))
	for i, t := range ts {
		if !t.isConst() {
			return nil, false
		}
		out[i] = byte(t.val)
	}
	return out, true
}

func eqBytes(w *worker, a, b []*Term) *Term {
	if len(a) != len(b) {
		return w.tb.False
	}
	return w.tb.EqSeq(a, b)
}

func (w *worker) edSign(seed, msg []*Term) []*Term {
	in := append(append([]*Term(nil), seed...), msg...)
	w.ideal("edpub", seed, 32, true, edpubReal)
	return w.ideal("edsig", in, 64, true, edsigReal)
}

func (w *worker) edVerify(pub, msg, sig []*Term) *Term {
	tb := w.tb
	if len(pub) != 32 {
		w.rpanic("ed25519: bad public key length: %d", len(pub))
	}
	if len(sig) != 64 {
		return tb.False
	}
	if p, ok := allConst(pub); ok {
		if m, ok := allConst(msg); ok {
			if s, ok := allConst(sig); ok {
				return tb.Bool(ed25519.Verify(p, m, s))
			}
		}
	}
	var alts []*Term
	n := len(w.apps)
	for i := 0; i < n; i++ {
		a := w.apps[i]
		if a.kind != "edpub" {
			continue
		}
		var out []*Term
		for _, o := range a.out {
			for j := 7; j >= 0; j-- {
				out = append(out, tb.Extract(o, int16(j*8), 8))
			}
		}
		c := eqBytes(w, pub, out)
		if c == tb.False {
			continue
		}
		s := w.edSign(a.in, msg)
		alts = append(alts, tb.And(c, eqBytes(w, sig, s)))
	}
	return tb.Or(alts...)
}

func bigDivReal(nu, nv int) func(in []byte) []byte {
	return func(in []byte) []byte {
		u := new(big.Int).SetBytes(in[:8*nu])
		v := new(big.Int).SetBytes(in[8*nu:])
		out := make([]byte, 8*(nu+nv))
		if v.Sign() == 0 {
			return out
		}
		q, r := new(big.Int).QuoRem(u, v, new(big.Int))
		q.FillBytes(out[:8*nu])
		r.FillBytes(out[8*nu:])
		return out
	}
}

// ltWords compares little-endian words.
func ltWords(tb *TB, a, b []*Term) *Term {
	lt := tb.False
	for i := range a {
		lt = tb.Or(tb.Ult(a[i], b[i]), tb.And(tb.Eq(a[i], b[i]), lt))
	}
	return lt
}

func eqWords(tb *TB, a, b []*Term) *Term {
	ts := []*Term{}
	for i := range a {
		ts = append(ts, tb.Eq(a[i], b[i]))
	}
	return tb.And(ts...)
}

// bigDiv divides multi-word numbers: exactly on concrete operands, otherwise
// as an idealised function with the facts 0 <= r < v and q = 0 iff u < v.
func (w *worker) bigDiv(u, v []*Term) (q, r []*Term) {
	tb := w.tb
	var in []*Term
	for _, ws := range [][]*Term{u, v} {
		for i := len(ws) - 1; i >= 0; i-- {
			for j := 7; j >= 0; j-- {
				in = append(in, tb.Extract(ws[i], int16(8*j), 8))
			}
		}
	}
	out := w.ideal(fmt.Sprintf("bigdiv%d.%d", len(u), len(v)), in, 8*(len(u)+len(v)), false, bigDivReal(len(u), len(v)))
	word := func(i int) *Term {
		t := out[8*i]
		for j := 1; j < 8; j++ {
			t = tb.Concat(t, out[8*i+j])
		}
		return t
	}
	for i := range u {
		q = append(q, word(len(u)-1-i))
	}
	for i := range v {
		r = append(r, word(len(u)+len(v)-1-i))
	}
	zero := tb.Const(64, 0)
	for i := len(u) - len(v) + 1; i < len(u); i++ {
		if i >= 0 {
			w.assume(tb.Eq(q[i], zero))
		}
	}
	w.assume(ltWords(tb, r, v))
	n := max(len(u), len(v))
	pad := func(ws []*Term) []*Term {
		ws = append([]*Term(nil), ws...)
		for len(ws) < n {
			ws = append(ws, zero)
		}
		return ws
	}
	small := ltWords(tb, pad(u), pad(v))
	qz := make([]*Term, len(q))
	for i := range qz {
		qz[i] = zero
	}
	w.assume(tb.Eq(eqWords(tb, q, qz), small))
	w.assume(tb.Implies(small, eqWords(tb, pad(r), pad(u))))
	norm := func(ws []*Term) []*Term {
		for len(ws) > 0 && w.branch(tb.Eq(ws[len(ws)-1], zero)) {
			ws = ws[:len(ws)-1]
		}
		return ws
	}
	return norm(q), norm(r)
}

func registerCrypto(reg func(string, intrinsic)) {
	sum := func(f func(w *worker, in []*Term) []*Term) intrinsic {
		return func(fr *frame, a []value) value { return aggOf(f(fr.w, fr.w.bytesOf(a[0].([]value)))) }
	}
	reg("golang.org/x/crypto/blake2b.Sum256", sum((*worker).blake))
	reg("crypto/sha256.Sum256", sum((*worker).sha))
	newHash := func(kind string, typ func(w *worker) types.Type) func(w *worker) iface {
		return func(w *worker) iface {
			p := new(value)
			*p = agg{}
			w.hashes[p] = &hashObj{kind: kind}
			return iface{typ(w), p}
		}
	}
	bl := newHash("blake2b", func(w *worker) types.Type {
		return types.NewPointer(w.namedType("golang.org/x/crypto/blake2b", "digest"))
	})
	reg("golang.org/x/crypto/blake2b.New256", func(fr *frame, a []value) value {
		if len(a[0].([]value)) != 0 {
			panic(pathEnd{"unsupported", "keyed blake2b"})
		}
		return tuple{bl(fr.w), iface{}}
	})
	reg("golang.org/x/crypto/blake2b.New", func(fr *frame, a []value) value {
		if len(a[1].([]value)) != 0 || fr.w.intOf(a[0], true) != 32 {
			panic(pathEnd{"unsupported", "blake2b.New"})
		}
		return tuple{bl(fr.w), iface{}}
	})
	obj := func(fr *frame, v value) *hashObj {
		p, _ := v.(*value)
		if p == nil {
			fr.w.throw("invalid memory address or nil pointer dereference")
		}
		h := fr.w.hashes[p]
		if h == nil {
			panic(pathEnd{"unsupported", "unknown hash object"})
		}
		return h
	}
	const d = "(*golang.org/x/crypto/blake2b.digest)."
	reg(d+"Write", func(fr *frame, a []value) value {
		h := obj(fr, a[0])
		b := fr.w.bytesOf(a[1].([]value))
		h.buf = append(h.buf[:len(h.buf):len(h.buf)], b...)
		return tuple{fr.w.num64(len(b)), iface{}}
	})
	reg(d+"Sum", func(fr *frame, a []value) value {
		h := obj(fr, a[0])
		return fr.w.appendVals(a[1].([]value), fr.w.mkBytes(fr.w.blake(h.buf)), types.Typ[types.Uint8])
	})
	reg(d+"Reset", func(fr *frame, a []value) value { obj(fr, a[0]).buf = nil; return nil })
	reg(d+"Size", func(fr *frame, a []value) value { return fr.w.num64(32) })
	reg(d+"BlockSize", func(fr *frame, a []value) value { return fr.w.num64(128) })

	reg("(math/big.nat).div", func(fr *frame, a []value) value {
		w := fr.w
		u, v := w.bytesOf(a[3].([]value)), w.bytesOf(a[4].([]value))
		if len(v) == 0 {
			w.rpanic("division by zero")
		}
		q, r := w.bigDiv(u, v)
		return tuple{w.mkBytes(q), w.mkBytes(r)}
	})

	const ed = "crypto/ed25519."
	reg(ed+"NewKeyFromSeed", func(fr *frame, a []value) value {
		w := fr.w
		seed := w.bytesOf(a[0].([]value))
		if len(seed) != 32 {
			w.rpanic("ed25519: bad seed length: %d", len(seed))
		}
		pub := w.ideal("edpub", seed, 32, true, edpubReal)
		return w.mkBytes(append(append([]*Term(nil), seed...), pub...))
	})
	sign := func(fr *frame, priv, msg value) []value {
		w := fr.w
		p := w.bytesOf(priv.([]value))
		if len(p) != 64 {
			w.rpanic("ed25519: bad private key length: %d", len(p))
		}
		return w.mkBytes(w.edSign(p[:32], w.bytesOf(msg.([]value))))
	}
	reg(ed+"Sign", func(fr *frame, a []value) value { return sign(fr, a[0], a[1]) })
	reg("(crypto/ed25519.PrivateKey).Sign", func(fr *frame, a []value) value {
		if opt := a[3].(iface); opt.t == nil {
			fr.w.throw("invalid memory address or nil pointer dereference")
		} else if r, ok := fr.w.callMethod(fr, opt, "HashFunc"); !ok || !r.(*Term).isConst() || r.(*Term).val != 0 {
			return tuple{[]value(nil), fr.w.newError(str{s: "ed25519: expected opts.HashFunc() zero"})}
		}
		return tuple{sign(fr, a[0], a[2]), iface{}}
	})
	reg(ed+"Verify", func(fr *frame, a []value) value {
		w := fr.w
		return w.edVerify(w.bytesOf(a[0].([]value)), w.bytesOf(a[1].([]value)), w.bytesOf(a[2].([]value)))
	})
	reg(ed+"GenerateKey", func(fr *frame, a []value) value {
		w := fr.w
		seed := make([]*Term, 32)
		for i := range seed {
			// Not a replayable input: the native run draws its own key.
			seed[i] = w.tb.Var(fmt.Sprintf("genkey.%d.%d", len(w.apps), i), 8)
		}
		pub := w.ideal("edpub", seed, 32, true, edpubReal)
		return tuple{w.mkBytes(pub), w.mkBytes(append(append([]*Term(nil), seed...), pub...)), iface{}}
	})
	reg("crypto/subtle.ConstantTimeCompare", func(fr *frame, a []value) value {
		w := fr.w
		return w.tb.BoolToBV(eqBytes(w, w.bytesOf(a[0].([]value)), w.bytesOf(a[1].([]value))), 64)
	})
}
