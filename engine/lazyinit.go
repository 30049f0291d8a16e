package main

import "golang.org/x/tools/go/ssa"

// Packages whose initialisers are not run (denyInit) still have variables with
// plain initial values: error values, small tables, prefixes. sliceInit finds
// the instructions of the package initialiser one variable's value depends on
// and runs just those, if they are all harmless.
func (w *worker) sliceInit(g *ssa.Global) {
	f := g.Pkg.Func("init")
	if f == nil {
		return
	}
	in := map[ssa.Instruction]bool{}
	ok := true
	var need func(v ssa.Value)
	var take func(i ssa.Instruction)
	uses := func(v ssa.Value) {
		for _, r := range *v.Referrers() {
			switch r.(type) {
			case *ssa.IndexAddr, *ssa.FieldAddr, *ssa.Slice, *ssa.Store, *ssa.MapUpdate:
				take(r)
			}
		}
	}
	take = func(i ssa.Instruction) {
		if in[i] || !ok {
			return
		}
		in[i] = true
		switch x := i.(type) {
		case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice, *ssa.IndexAddr, *ssa.FieldAddr, *ssa.Slice:
			uses(i.(ssa.Value))
		case *ssa.Store, *ssa.MapUpdate, *ssa.Convert, *ssa.ChangeType, *ssa.ChangeInterface, *ssa.MakeInterface, *ssa.BinOp, *ssa.UnOp:
		case *ssa.Call:
			if !harmless(x) {
				ok = false
			}
		default:
			ok = false
		}
		for _, o := range i.Operands(nil) {
			if *o != nil {
				need(*o)
			}
		}
	}
	need = func(v ssa.Value) {
		if i, is := v.(ssa.Instruction); is {
			take(i)
		}
	}
	found := false
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			for _, o := range i.Operands(nil) {
				if *o != ssa.Value(g) {
					continue
				}
				switch x := i.(type) {
				case *ssa.Store:
					if x.Addr == ssa.Value(g) {
						found = true
						take(i)
					}
				case *ssa.IndexAddr, *ssa.FieldAddr:
					found = true
					take(i)
				}
			}
		}
	}
	if !found || !ok || len(in) > 4000 {
		return
	}
	c := w.fn(f)
	if len(c.blocks) == 0 {
		w.compile(c)
	}
	saved, nf, sc, lim := w.steps, w.noFork, w.sched, w.allocLimit
	w.noFork, w.sched, w.allocLimit = false, nil, -1
	fr := &frame{w: w, fn: c, regs: make([]value, c.nregs)}
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if in[i] {
				if code, _ := w.compileInstr(c, i); code != nil {
					code(fr)
				}
			}
		}
	}
	w.steps, w.noFork, w.sched, w.allocLimit = saved, nf, sc, lim
}

// harmless reports whether an initialiser may make this call.
func harmless(c *ssa.Call) bool {
	f := c.Call.StaticCallee()
	if f == nil {
		return false
	}
	switch f.String() {
	case "errors.New", "net.IPv4", "net.IPv4Mask", "net.CIDRMask":
		return true
	}
	if len(f.Params) > 0 || len(f.Blocks) != 1 {
		return false
	}
	// a function that just returns another variable
	for _, i := range f.Blocks[0].Instrs {
		switch i.(type) {
		case *ssa.UnOp, *ssa.Return, *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}
