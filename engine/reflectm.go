package main

// Model of package reflect.

import (
	"fmt"
	"go/types"
	"reflect"

	"golang.org/x/tools/go/ssa"
)

type rvalue struct {
	t    types.Type // nil: invalid Value
	v    value
	cell *value
	ro   bool
	emb  bool // read-only only as an embedded unexported field
}

type rtype struct{ t types.Type }

func (r rvalue) addressable() bool { return r.cell != nil }

func (w *worker) rget(r rvalue) value {
	if r.cell != nil {
		return w.load(r.cell)
	}
	return r.v
}

func kindOf(t types.Type) reflect.Kind {
	switch u := under(t).(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return reflect.Bool
		case types.Int:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64:
			return reflect.Float64
		case types.Complex64:
			return reflect.Complex64
		case types.Complex128:
			return reflect.Complex128
		case types.String:
			return reflect.String
		case types.UnsafePointer:
			return reflect.UnsafePointer
		}
	case *types.Pointer:
		return reflect.Ptr
	case *types.Slice:
		return reflect.Slice
	case *types.Array:
		return reflect.Array
	case *types.Struct:
		return reflect.Struct
	case *types.Map:
		return reflect.Map
	case *types.Chan:
		return reflect.Chan
	case *types.Signature:
		return reflect.Func
	case *types.Interface:
		return reflect.Interface
	}
	return reflect.Invalid
}

func (w *worker) rpanic(f string, a ...interface{}) {
	msg := fmt.Sprintf(f, a...)
	panic(&targetPanic{v: iface{types.Typ[types.String], str{s: msg}}, msg: msg})
}

// rvalPanic models *reflect.ValueError.
func (w *worker) rvalPanic(method string, k reflect.Kind) {
	msg := "reflect: call of reflect.Value." + method + " on zero Value"
	if k != 0 {
		msg = "reflect: call of reflect.Value." + method + " on " + k.String() + " Value"
	}
	panic(&targetPanic{v: iface{types.Typ[types.String], str{s: msg}}, msg: msg})
}

func (r rvalue) kind() reflect.Kind {
	if r.t == nil {
		return reflect.Invalid
	}
	return kindOf(r.t)
}

func (w *worker) mustKind(r rvalue, method string, ks ...reflect.Kind) reflect.Kind {
	k := r.kind()
	for _, x := range ks {
		if k == x {
			return k
		}
	}
	w.rvalPanic(method, k)
	return 0
}

func (w *worker) rtypeIface(t types.Type) iface {
	return iface{w.eng.reflectRtype, rtype{t}}
}

func (w *worker) typeArg(v value) types.Type {
	i := v.(iface)
	if i.t == nil {
		w.throw("invalid memory address or nil pointer dereference")
	}
	return i.v.(rtype).t
}

func (w *worker) num64(n int) value { return w.tb.Const(64, uint64(n)) }

// toIface converts a value of static type t to an interface value.
func (w *worker) toIface(t types.Type, v value) iface {
	if types.IsInterface(t) {
		return v.(iface)
	}
	return iface{t, copyVal(v)}
}

func (w *worker) mustSettable(r rvalue, m string) {
	if r.t == nil {
		w.rvalPanic(m, 0)
	}
	if r.ro {
		w.rpanic("reflect: reflect.Value.%s using value obtained using unexported field", m)
	}
	if r.cell == nil {
		w.rpanic("reflect: reflect.Value.%s using unaddressable value", m)
	}
}

func (w *worker) assignTo(x rvalue, t types.Type) value {
	if x.t == nil {
		w.rpanic("reflect: call of reflect.Value.Set on zero Value")
	}
	if types.IsInterface(t) {
		if types.IsInterface(x.t) {
			return w.rget(x)
		}
		if !types.Implements(x.t, under(t).(*types.Interface)) {
			w.rpanic("reflect.Set: value of type %s is not assignable to type %s", x.t, t)
		}
		return iface{x.t, copyVal(w.rget(x))}
	}
	if !types.AssignableTo(x.t, t) {
		w.rpanic("reflect.Set: value of type %s is not assignable to type %s", x.t, t)
	}
	return w.rget(x)
}

func isExported(name string) bool { return len(name) > 0 && (name[0] >= 'A' && name[0] <= 'Z') }

func (w *worker) structField(t types.Type, i int) value {
	st := under(t).(*types.Struct)
	f := st.Field(i)
	pp := ""
	if !f.Exported() {
		pp = f.Pkg().Path()
	}
	var offs int64
	var fs []*types.Var
	for k := 0; k < st.NumFields(); k++ {
		fs = append(fs, st.Field(k))
	}
	offs = sizes64.Offsetsof(fs)[i]
	return agg{
		str{s: f.Name()}, str{s: pp}, w.rtypeIface(f.Type()), str{s: st.Tag(i)},
		w.tb.Const(64, uint64(offs)), []value{w.num64(i)}, w.tb.Bool(f.Embedded()),
	}
}

func exportedMethods(t types.Type) int {
	ms := types.NewMethodSet(t)
	n := 0
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Exported() {
			n++
		}
	}
	return n
}

func typeName(t types.Type) string {
	switch x := t.(type) {
	case *types.Named:
		return x.Obj().Name()
	case *types.Alias:
		return typeName(types.Unalias(x))
	case *types.Basic:
		return x.Name()
	}
	return ""
}

func typeString(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func (w *worker) rtypeMethod(rt rtype, name string, args []value) value {
	t := rt.t
	elem := func() types.Type {
		switch u := under(t).(type) {
		case *types.Pointer:
			return u.Elem()
		case *types.Slice:
			return u.Elem()
		case *types.Array:
			return u.Elem()
		case *types.Map:
			return u.Elem()
		case *types.Chan:
			return u.Elem()
		}
		w.rpanic("reflect: Elem of invalid type %s", typeString(t))
		return nil
	}
	switch name {
	case "Kind":
		return w.num64(int(kindOf(t)))
	case "Elem":
		return w.rtypeIface(elem())
	case "Key":
		return w.rtypeIface(under(t).(*types.Map).Key())
	case "Len":
		a, ok := under(t).(*types.Array)
		if !ok {
			w.rpanic("reflect: Len of non-array type %s", typeString(t))
		}
		return w.num64(int(a.Len()))
	case "NumMethod":
		if it, ok := under(t).(*types.Interface); ok {
			return w.num64(it.NumMethods())
		}
		return w.num64(exportedMethods(t))
	case "Name":
		return str{s: typeName(t)}
	case "String":
		return str{s: typeString(t)}
	case "PkgPath":
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
			return str{s: n.Obj().Pkg().Path()}
		}
		return str{}
	case "NumField":
		st, ok := under(t).(*types.Struct)
		if !ok {
			w.rpanic("reflect: NumField of non-struct type %s", typeString(t))
		}
		return w.num64(st.NumFields())
	case "Field":
		st, ok := under(t).(*types.Struct)
		if !ok {
			w.rpanic("reflect: Field of non-struct type %s", typeString(t))
		}
		i := int(w.intOf(args[0], true))
		if i < 0 || i >= st.NumFields() {
			w.rpanic("reflect: Field index out of bounds")
		}
		return w.structField(t, i)
	case "Size":
		return w.tb.Const(64, uint64(sizes64.Sizeof(t)))
	case "Bits":
		return w.num64(int(sizes64.Sizeof(t)) * 8)
	case "Align", "FieldAlign":
		return w.num64(int(sizes64.Alignof(t)))
	case "Implements":
		u := w.typeArg(args[0])
		it, ok := under(u).(*types.Interface)
		if !ok {
			w.rpanic("reflect: non-interface type passed to Type.Implements")
		}
		return w.tb.Bool(types.Implements(t, it))
	case "AssignableTo":
		return w.tb.Bool(types.AssignableTo(t, w.typeArg(args[0])))
	case "ConvertibleTo":
		return w.tb.Bool(types.ConvertibleTo(t, w.typeArg(args[0])))
	case "Comparable":
		return w.tb.Bool(types.Comparable(t))
	}
	panic(pathEnd{"unsupported", "reflect.Type." + name})
}

func (w *worker) rIsNil(r rvalue) bool {
	switch x := w.rget(r).(type) {
	case *value:
		return x == nil
	case []value:
		return x == nil
	case *mapv:
		return x == nil
	case *closure:
		return x == nil
	case *chanv:
		return x == nil
	case iface:
		return x.t == nil
	case symPtr, unsafePtr:
		return false
	}
	panic(pathEnd{"unsupported", "reflect IsNil"})
}

func (w *worker) rElem(r rvalue) rvalue {
	switch w.mustKind(r, "Elem", reflect.Interface, reflect.Ptr) {
	case reflect.Interface:
		x := w.rget(r).(iface)
		if x.t == nil {
			return rvalue{}
		}
		if rt, ok := x.v.(rtype); ok {
			return rvalue{t: w.eng.reflectRtype, v: rt, ro: r.ro}
		}
		return rvalue{t: x.t, v: copyVal(x.v), ro: r.ro}
	}
	p, ok := w.rget(r).(*value)
	if !ok {
		panic(pathEnd{"unsupported", "reflect Elem of special pointer"})
	}
	if p == nil {
		return rvalue{}
	}
	return rvalue{t: under(r.t).(*types.Pointer).Elem(), cell: p, ro: r.ro}
}

func (w *worker) rField(r rvalue, i int) rvalue {
	w.mustKind(r, "Field", reflect.Struct)
	st := under(r.t).(*types.Struct)
	if i < 0 || i >= st.NumFields() {
		w.rpanic("reflect: Field index out of range")
	}
	f := st.Field(i)
	// Exported fields of embedded unexported structs are accessible.
	ro, emb := r.ro && !r.emb, false
	if !f.Exported() && !ro {
		ro, emb = true, f.Embedded()
	}
	if r.cell != nil {
		return rvalue{t: f.Type(), cell: &(*r.cell).(agg)[i], ro: ro, emb: emb}
	}
	return rvalue{t: f.Type(), v: r.v.(agg)[i], ro: ro, emb: emb}
}

func (w *worker) rLen(r rvalue, m string) int {
	w.mustKind(r, m, reflect.Slice, reflect.String, reflect.Array, reflect.Map, reflect.Chan)
	switch x := w.rget(r).(type) {
	case []value:
		if m == "Cap" {
			return cap(x)
		}
		return len(x)
	case str:
		return x.len()
	case agg:
		return len(x)
	case *mapv:
		if x == nil {
			return 0
		}
		return x.n
	case *chanv:
		return len(x.buf)
	}
	return 0
}

func (w *worker) rIndex(r rvalue, i int) rvalue {
	k := w.mustKind(r, "Index", reflect.Slice, reflect.String, reflect.Array)
	n := w.rLen(r, "Len")
	if i < 0 || i >= n {
		w.rpanic("reflect: %s index out of range", k)
	}
	switch k {
	case reflect.Slice:
		return rvalue{t: under(r.t).(*types.Slice).Elem(), cell: &w.rget(r).([]value)[i], ro: r.ro}
	case reflect.Array:
		et := under(r.t).(*types.Array).Elem()
		if r.cell != nil {
			return rvalue{t: et, cell: &(*r.cell).(agg)[i], ro: r.ro}
		}
		return rvalue{t: et, v: r.v.(agg)[i], ro: r.ro}
	}
	return rvalue{t: types.Typ[types.Uint8], v: w.strByte(w.rget(r).(str), i), ro: r.ro}
}

func (w *worker) rInterface(r rvalue) value {
	if r.t == nil {
		w.rvalPanic("Interface", 0)
	}
	if r.ro {
		w.rpanic("reflect.Value.Interface: cannot return value obtained from unexported field or method")
	}
	return w.toIface(r.t, w.rget(r))
}

// rElems gives the addressable element cells of a slice or array value.
func (w *worker) rElems(r rvalue) []value {
	switch x := w.rget(r).(type) {
	case []value:
		return x
	case agg:
		if r.cell != nil {
			return (*r.cell).(agg)
		}
		return x
	}
	return nil
}

var intKinds = []reflect.Kind{reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64}
var uintKinds = []reflect.Kind{reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr}

func registerReflect(reg func(string, intrinsic)) {
	reg("reflect.ValueOf", func(fr *frame, a []value) value {
		x := a[0].(iface)
		if x.t == nil {
			return rvalue{}
		}
		if rt, ok := x.v.(rtype); ok {
			return rvalue{t: fr.w.eng.reflectRtype, v: rt}
		}
		return rvalue{t: x.t, v: copyVal(x.v)}
	})
	reg("reflect.TypeOf", func(fr *frame, a []value) value {
		x := a[0].(iface)
		if x.t == nil {
			return iface{}
		}
		if _, ok := x.v.(rtype); ok {
			return fr.w.rtypeIface(fr.w.eng.reflectRtype)
		}
		return fr.w.rtypeIface(x.t)
	})
	reg("reflect.TypeFor", func(fr *frame, a []value) value {
		panic(pathEnd{"unsupported", "reflect.TypeFor"})
	})
	reg("reflect.Zero", func(fr *frame, a []value) value {
		t := fr.w.typeArg(a[0])
		return rvalue{t: t, v: fr.w.zero(t)}
	})
	reg("reflect.New", func(fr *frame, a []value) value {
		t := fr.w.typeArg(a[0])
		p := new(value)
		*p = fr.w.zero(t)
		return rvalue{t: types.NewPointer(t), v: p}
	})
	ptrTo := func(fr *frame, a []value) value { return fr.w.rtypeIface(types.NewPointer(fr.w.typeArg(a[0]))) }
	reg("reflect.PtrTo", ptrTo)
	reg("reflect.PointerTo", ptrTo)
	reg("reflect.SliceOf", func(fr *frame, a []value) value {
		return fr.w.rtypeIface(types.NewSlice(fr.w.typeArg(a[0])))
	})
	reg("reflect.Indirect", func(fr *frame, a []value) value {
		r := a[0].(rvalue)
		if r.kind() != reflect.Ptr {
			return r
		}
		return fr.w.rElem(r)
	})
	reg("reflect.MakeSlice", func(fr *frame, a []value) value {
		w := fr.w
		t := w.typeArg(a[0])
		st, ok := under(t).(*types.Slice)
		if !ok {
			w.rpanic("reflect.MakeSlice of non-slice type")
		}
		n := w.makeLen(a[1].(*Term), true, "len")
		c := n
		if a[2] != a[1] {
			c = w.makeLen(a[2].(*Term), true, "cap")
		}
		if n > c {
			w.rpanic("reflect.MakeSlice: len > cap")
		}
		return rvalue{t: t, v: w.makeSlice(st.Elem(), n, c)}
	})
	reg("reflect.MakeMap", func(fr *frame, a []value) value {
		return rvalue{t: fr.w.typeArg(a[0]), v: newMap()}
	})
	reg("reflect.Copy", func(fr *frame, a []value) value {
		w := fr.w
		d, s := a[0].(rvalue), a[1].(rvalue)
		dk := w.mustKind(d, "Copy", reflect.Array, reflect.Slice)
		if dk == reflect.Array {
			w.mustSettable(d, "Copy")
		}
		w.mustKind(s, "Copy", reflect.Array, reflect.Slice, reflect.String)
		dst := w.rElems(d)
		var src []value
		if s.kind() == reflect.String {
			src = w.mkBytes(w.strBytes(w.rget(s).(str)))
		} else {
			if de, se := elemType(d.t), elemType(s.t); !types.Identical(de, se) {
				w.rpanic("reflect.Copy: %s != %s", de, se)
			}
			src = w.rElems(s)
		}
		n := min(len(dst), len(src))
		tmp := make([]value, n)
		for i := range tmp {
			tmp[i] = copyVal(src[i])
		}
		for i := range tmp {
			storeCell(&dst[i], tmp[i])
		}
		return w.num64(n)
	})
	reg("reflect.Append", func(fr *frame, a []value) value {
		w := fr.w
		s := a[0].(rvalue)
		w.mustKind(s, "Append", reflect.Slice)
		et := under(s.t).(*types.Slice).Elem()
		var add []value
		for _, x := range a[1].([]value) {
			add = append(add, w.assignTo(x.(rvalue), et))
		}
		return rvalue{t: s.t, v: w.appendVals(w.rget(s).([]value), add, et)}
	})
	reg("reflect.AppendSlice", func(fr *frame, a []value) value {
		w := fr.w
		s, t := a[0].(rvalue), a[1].(rvalue)
		et := under(s.t).(*types.Slice).Elem()
		return rvalue{t: s.t, v: w.appendVals(w.rget(s).([]value), w.rget(t).([]value), et)}
	})
	reg("reflect.DeepEqual", func(fr *frame, a []value) value {
		return fr.w.deepEqual(a[0], a[1])
	})

	m := func(name string, f func(w *worker, r rvalue, a []value) value) {
		reg("(reflect.Value)."+name, func(fr *frame, a []value) value {
			var r rvalue
			switch x := a[0].(type) {
			case rvalue:
				r = x
			case agg: // zero reflect.Value produced without type information
			}
			return f(fr.w, r, a[1:])
		})
	}
	m("Kind", func(w *worker, r rvalue, a []value) value { return w.num64(int(r.kind())) })
	m("IsValid", func(w *worker, r rvalue, a []value) value { return w.tb.Bool(r.t != nil) })
	m("Type", func(w *worker, r rvalue, a []value) value {
		if r.t == nil {
			w.rvalPanic("Type", 0)
		}
		return w.rtypeIface(r.t)
	})
	m("IsNil", func(w *worker, r rvalue, a []value) value {
		w.mustKind(r, "IsNil", reflect.Chan, reflect.Func, reflect.Map, reflect.Ptr, reflect.UnsafePointer, reflect.Interface, reflect.Slice)
		return w.tb.Bool(w.rIsNil(r))
	})
	m("IsZero", func(w *worker, r rvalue, a []value) value {
		if r.t == nil {
			w.rvalPanic("IsZero", 0)
		}
		switch r.kind() {
		case reflect.Chan, reflect.Func, reflect.Map, reflect.Ptr, reflect.UnsafePointer, reflect.Interface, reflect.Slice:
			return w.tb.Bool(w.rIsNil(r))
		}
		return w.eq(w.rget(r), w.zero(r.t))
	})
	m("Elem", func(w *worker, r rvalue, a []value) value { return w.rElem(r) })
	m("CanAddr", func(w *worker, r rvalue, a []value) value { return w.tb.Bool(r.cell != nil) })
	m("CanSet", func(w *worker, r rvalue, a []value) value { return w.tb.Bool(r.cell != nil && !r.ro) })
	m("CanInterface", func(w *worker, r rvalue, a []value) value {
		if r.t == nil {
			w.rvalPanic("CanInterface", 0)
		}
		return w.tb.Bool(!r.ro)
	})
	m("Addr", func(w *worker, r rvalue, a []value) value {
		if r.cell == nil {
			w.rpanic("reflect.Value.Addr of unaddressable value")
		}
		return rvalue{t: types.NewPointer(r.t), v: r.cell, ro: r.ro}
	})
	m("Interface", func(w *worker, r rvalue, a []value) value { return w.rInterface(r) })
	m("Field", func(w *worker, r rvalue, a []value) value { return w.rField(r, int(w.intOf(a[0], true))) })
	m("NumField", func(w *worker, r rvalue, a []value) value {
		w.mustKind(r, "NumField", reflect.Struct)
		return w.num64(under(r.t).(*types.Struct).NumFields())
	})
	m("FieldByName", func(w *worker, r rvalue, a []value) value {
		w.mustKind(r, "FieldByName", reflect.Struct)
		st := under(r.t).(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == a[0].(str).s {
				return w.rField(r, i)
			}
		}
		return rvalue{}
	})
	m("NumMethod", func(w *worker, r rvalue, a []value) value {
		if r.t == nil {
			w.rvalPanic("NumMethod", 0)
		}
		if it, ok := under(r.t).(*types.Interface); ok {
			return w.num64(it.NumMethods())
		}
		if r.ro {
			return w.num64(0)
		}
		return w.num64(exportedMethods(r.t))
	})
	m("Len", func(w *worker, r rvalue, a []value) value {
		if r.kind() == reflect.Ptr {
			if at, ok := under(under(r.t).(*types.Pointer).Elem()).(*types.Array); ok {
				return w.num64(int(at.Len()))
			}
		}
		return w.num64(w.rLen(r, "Len"))
	})
	m("Cap", func(w *worker, r rvalue, a []value) value { return w.num64(w.rLen(r, "Cap")) })
	m("Index", func(w *worker, r rvalue, a []value) value { return w.rIndex(r, int(w.intOf(a[0], true))) })
	m("Bool", func(w *worker, r rvalue, a []value) value {
		w.mustKind(r, "Bool", reflect.Bool)
		return w.rget(r)
	})
	m("Int", func(w *worker, r rvalue, a []value) value {
		w.mustKind(r, "Int", intKinds...)
		return w.tb.Sext(w.rget(r).(*Term), 64)
	})
	m("Uint", func(w *worker, r rvalue, a []value) value {
		w.mustKind(r, "Uint", uintKinds...)
		return w.tb.Zext(w.rget(r).(*Term), 64)
	})
	m("CanInt", func(w *worker, r rvalue, a []value) value { return w.tb.Bool(inKinds(r.kind(), intKinds)) })
	m("CanUint", func(w *worker, r rvalue, a []value) value { return w.tb.Bool(inKinds(r.kind(), uintKinds)) })
	m("String", func(w *worker, r rvalue, a []value) value {
		if r.t == nil {
			return str{s: "<invalid Value>"}
		}
		if r.kind() == reflect.String {
			return w.rget(r)
		}
		return str{s: "<" + typeString(r.t) + " Value>"}
	})
	m("Bytes", func(w *worker, r rvalue, a []value) value {
		switch w.mustKind(r, "Bytes", reflect.Slice, reflect.Array) {
		case reflect.Slice:
			if kindOf(under(r.t).(*types.Slice).Elem()) != reflect.Uint8 {
				w.rpanic("reflect.Value.Bytes of non-byte slice")
			}
			return w.rget(r)
		}
		if kindOf(under(r.t).(*types.Array).Elem()) != reflect.Uint8 {
			w.rpanic("reflect.Value.Bytes of non-byte array")
		}
		if r.cell == nil {
			w.rpanic("reflect.Value.Bytes of unaddressable byte array")
		}
		return []value((*r.cell).(agg))
	})
	m("Slice", func(w *worker, r rvalue, a []value) value {
		i, j := int(w.intOf(a[0], true)), int(w.intOf(a[1], true))
		switch w.mustKind(r, "Slice", reflect.Slice, reflect.Array, reflect.String) {
		case reflect.Array:
			if r.cell == nil {
				w.rpanic("reflect.Value.Slice: slice of unaddressable array")
			}
			e := (*r.cell).(agg)
			if i < 0 || j < i || j > len(e) {
				w.rpanic("reflect.Value.Slice: slice index out of bounds")
			}
			return rvalue{t: types.NewSlice(under(r.t).(*types.Array).Elem()), v: []value(e[i:j]), ro: r.ro}
		case reflect.Slice:
			e := w.rget(r).([]value)
			if i < 0 || j < i || j > cap(e) {
				w.rpanic("reflect.Value.Slice: slice index out of bounds")
			}
			return rvalue{t: r.t, v: e[i:j], ro: r.ro}
		}
		s := w.rget(r).(str)
		if i < 0 || j < i || j > s.len() {
			w.rpanic("reflect.Value.Slice: string slice index out of bounds")
		}
		return rvalue{t: r.t, v: s.slice(i, j), ro: r.ro}
	})
	m("Set", func(w *worker, r rvalue, a []value) value {
		w.mustSettable(r, "Set")
		x := a[0].(rvalue)
		if x.ro {
			w.rpanic("reflect: reflect.Value.Set using value obtained using unexported field")
		}
		w.store(r.cell, w.assignTo(x, r.t))
		return nil
	})
	m("SetZero", func(w *worker, r rvalue, a []value) value {
		w.mustSettable(r, "SetZero")
		w.store(r.cell, w.zero(r.t))
		return nil
	})
	setNum := func(name string, ks []reflect.Kind) {
		m(name, func(w *worker, r rvalue, a []value) value {
			w.mustSettable(r, name)
			w.mustKind(r, name, ks...)
			wd, _, _ := scalarWidth(r.t)
			w.store(r.cell, w.tb.Resize(a[0].(*Term), wd, name == "SetInt"))
			return nil
		})
	}
	setNum("SetInt", intKinds)
	setNum("SetUint", uintKinds)
	m("SetBool", func(w *worker, r rvalue, a []value) value {
		w.mustSettable(r, "SetBool")
		w.mustKind(r, "SetBool", reflect.Bool)
		w.store(r.cell, a[0])
		return nil
	})
	m("SetString", func(w *worker, r rvalue, a []value) value {
		w.mustSettable(r, "SetString")
		w.mustKind(r, "SetString", reflect.String)
		w.store(r.cell, a[0])
		return nil
	})
	m("SetBytes", func(w *worker, r rvalue, a []value) value {
		w.mustSettable(r, "SetBytes")
		w.mustKind(r, "SetBytes", reflect.Slice)
		if kindOf(under(r.t).(*types.Slice).Elem()) != reflect.Uint8 {
			w.rpanic("reflect.Value.SetBytes of non-byte slice")
		}
		w.store(r.cell, a[0])
		return nil
	})
	m("SetLen", func(w *worker, r rvalue, a []value) value {
		w.mustSettable(r, "SetLen")
		w.mustKind(r, "SetLen", reflect.Slice)
		s := (*r.cell).([]value)
		n := int(w.intOf(a[0], true))
		if n < 0 || n > cap(s) {
			w.rpanic("reflect: slice length out of range in SetLen")
		}
		w.store(r.cell, s[:n])
		return nil
	})
	overflow := func(name string, ks []reflect.Kind, signed bool) {
		m(name, func(w *worker, r rvalue, a []value) value {
			w.mustKind(r, name, ks...)
			wd, _, _ := scalarWidth(r.t)
			x := a[0].(*Term)
			return w.tb.Not(w.tb.Eq(w.tb.Resize(w.tb.Resize(x, wd, signed), 64, signed), x))
		})
	}
	overflow("OverflowInt", intKinds, true)
	overflow("OverflowUint", uintKinds, false)
	m("Convert", func(w *worker, r rvalue, a []value) value {
		t := w.typeArg(a[0])
		if !types.ConvertibleTo(r.t, t) {
			w.rpanic("reflect.Value.Convert: value of type %s cannot be converted to type %s", r.t, t)
		}
		if types.IsInterface(t) {
			return rvalue{t: t, v: w.toIface(r.t, w.rget(r)), ro: r.ro}
		}
		if types.Identical(under(r.t), under(t)) {
			return rvalue{t: t, v: w.rget(r), ro: r.ro}
		}
		f, _ := w.convert(r.t, t)
		return rvalue{t: t, v: f(w, w.rget(r)), ro: r.ro}
	})
	m("Comparable", func(w *worker, r rvalue, a []value) value { return w.tb.Bool(r.t == nil || types.Comparable(r.t)) })
	m("Equal", func(w *worker, r rvalue, a []value) value {
		u := a[0].(rvalue)
		if r.t == nil || u.t == nil {
			return w.tb.Bool(r.t == nil && u.t == nil)
		}
		if !types.Identical(r.t, u.t) {
			return w.tb.False
		}
		return w.eq(w.rget(r), w.rget(u))
	})
	reg("(reflect.Kind).String", func(fr *frame, a []value) value {
		k := fr.w.concretize(a[0].(*Term))
		return str{s: reflect.Kind(k.val).String()}
	})
	reg("internal/reflectlite.TypeOf", func(fr *frame, a []value) value {
		x := a[0].(iface)
		if x.t == nil {
			return iface{}
		}
		return fr.w.rtypeIface(x.t)
	})
}

func inKinds(k reflect.Kind, ks []reflect.Kind) bool {
	for _, x := range ks {
		if x == k {
			return true
		}
	}
	return false
}

// deepEqual models reflect.DeepEqual for acyclic values.
func (w *worker) deepEqual(a, b value) *Term {
	x, y := a.(iface), b.(iface)
	if x.t == nil || y.t == nil {
		return w.tb.Bool(x.t == nil && y.t == nil)
	}
	if !types.Identical(x.t, y.t) {
		return w.tb.False
	}
	return w.deepEq(x.t, x.v, y.v, 0)
}

func (w *worker) deepEq(t types.Type, a, b value, d int) *Term {
	tb := w.tb
	if d > 40 {
		panic(pathEnd{"unsupported", "DeepEqual recursion"})
	}
	switch u := under(t).(type) {
	case *types.Pointer:
		x, y := a.(*value), b.(*value)
		if x == y {
			return tb.True
		}
		if x == nil || y == nil {
			return tb.False
		}
		return w.deepEq(u.Elem(), *x, *y, d+1)
	case *types.Slice:
		x, y := a.([]value), b.([]value)
		if (x == nil) != (y == nil) || len(x) != len(y) {
			return tb.False
		}
		var ts []*Term
		for i := range x {
			ts = append(ts, w.deepEq(u.Elem(), x[i], y[i], d+1))
		}
		return tb.And(ts...)
	case *types.Array:
		x, y := a.(agg), b.(agg)
		var ts []*Term
		for i := range x {
			ts = append(ts, w.deepEq(u.Elem(), x[i], y[i], d+1))
		}
		return tb.And(ts...)
	case *types.Struct:
		x, y := a.(agg), b.(agg)
		var ts []*Term
		for i := range x {
			ts = append(ts, w.deepEq(u.Field(i).Type(), x[i], y[i], d+1))
		}
		return tb.And(ts...)
	case *types.Interface:
		return w.deepEqual(a, b)
	case *types.Map:
		x, y := a.(*mapv), b.(*mapv)
		if (x == nil) != (y == nil) {
			return tb.False
		}
		if x == nil || x == y {
			return tb.True
		}
		if x.n != y.n {
			return tb.False
		}
		var ts []*Term
		for _, e := range x.entries {
			if e.dead {
				continue
			}
			f := w.mapFind(y, e.k)
			if f == nil {
				return tb.False
			}
			ts = append(ts, w.deepEq(u.Elem(), e.v, f.v, d+1))
		}
		return tb.And(ts...)
	case *types.Signature:
		return tb.Bool(a.(*closure) == nil && b.(*closure) == nil)
	}
	return w.eq(a, b)
}

var _ = ssa.SanityCheckFunctions

func elemType(t types.Type) types.Type {
	switch u := under(t).(type) {
	case *types.Array:
		return u.Elem()
	case *types.Slice:
		return u.Elem()
	}
	panic(pathEnd{"unsupported", "element of " + t.String()})
}
