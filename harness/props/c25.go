package props

import (
	"terorie.dev/nimiq/tree"
	"verif/harness/sym"
)

// shelf is the reference for a store: nodes under paths.
type shelf struct {
	paths [][]byte
	nodes []tree.Node
}

func (s *shelf) set(p []byte, n tree.Node) {
	for i := range s.paths {
		if string(s.paths[i]) == string(p) {
			s.nodes[i] = n
			return
		}
	}
	s.paths, s.nodes = append(s.paths, dup(p)), append(s.nodes, n)
}

func (s *shelf) at(p []byte) tree.Node {
	for i := range s.paths {
		if string(s.paths[i]) == string(p) {
			return s.nodes[i]
		}
	}
	return nil
}

func (s *shelf) clone() *shelf {
	return &shelf{append([][]byte(nil), s.paths...), append([]tree.Node(nil), s.nodes...)}
}

// over lays one shelf's entries, including deletions, on top of another's.
func (s *shelf) over(lower *shelf) *shelf {
	r := lower.clone()
	for i := range s.paths {
		r.set(s.paths[i], s.nodes[i])
	}
	return r
}

// shows compares a store with the reference at the paths given.
func (s *shelf) shows(st tree.Store, paths [][]byte, label string) {
	for _, p := range paths {
		q := dup(p)
		var n tree.Node
		sym.NoPanic("reading does not panic", func() { n = st.GetNode(tree.Nibbles(q)) })
		sym.Assert(n == s.at(p), label)
		sym.Assert(sym.EqBytes(q, p), "the path is left alone")
	}
}

// somePaths are a few paths of several lengths, of which some have arbitrary nibbles.
func somePaths(n int) (ps [][]byte) {
	for i := 0; i < n; i++ {
		p := arbNibbles("path", []int{2, 2, 1, 40}[i])
		for j := 2; j < len(p); j++ {
			p[j] = byte(j & 15)
		}
		ps = append(ps, p)
	}
	return
}

func someNode() tree.Node {
	if sym.Choose("node", 2) == 0 {
		return &tree.Leaf{Value: []byte{1}}
	}
	return &tree.Branch{}
}

// act puts or deletes something.
func (s *shelf) act(st tree.Store, p []byte) {
	q := dup(p)
	if sym.Choose("op", 2) == 0 {
		n := someNode()
		sym.NoPanic("putting does not panic", func() { st.PutNode(tree.Nibbles(q), n) })
		s.set(p, n)
	} else {
		sym.NoPanic("deleting does not panic", func() { st.DelNode(tree.Nibbles(q)) })
		s.set(p, nil)
	}
	// The store must not depend on the caller's buffer.
	for i := range q {
		q[i] ^= 5
	}
}

// C25_Mem: a memory store returns exactly what was last put.
func C25_Mem() {
	st := tree.NewMemStore()
	ps := somePaths(3)
	s := &shelf{}
	s.set(nil, st.GetNode(nil))
	root, ok := s.at(nil).(*tree.Branch)
	sym.Assert(ok && len(root.Prefix) == 0 && root.Hash() == refRootHash(nil), "a new store holds an empty root")
	s.shows(st, ps, "and nothing else")
	act := actors{max: 3}
	for i := 0; i < deep(3, 4); i++ {
		s.act(st, ps[act.pick("path")])
		s.shows(st, append(ps, nil), "exactly the node last put, nothing after a delete")
	}
}

// stack is a memory store with overlays, and what each level should show.
type stack struct {
	stores []tree.Store
	diffs  []*shelf // of each level
}

func newStack(levels int) *stack {
	m := tree.NewMemStore()
	s := &stack{[]tree.Store{m}, []*shelf{{}}}
	s.diffs[0].set(nil, m.GetNode(nil))
	for i := 0; i < levels; i++ {
		s.stores = append(s.stores, &tree.OverlayStore{Lower: s.stores[i]})
		s.diffs = append(s.diffs, &shelf{})
	}
	return s
}

func (s *stack) check(paths [][]byte) {
	view := &shelf{}
	for i, st := range s.stores {
		view = s.diffs[i].over(view)
		view.shows(st, paths, []string{"the lower store is untouched", "the overlay shows its changes over the lower store", "so does one above it"}[i])
	}
}

func (s *stack) flush(i int) {
	sym.NoPanic("flushing does not panic", func() { s.stores[i].(*tree.OverlayStore).Flush() })
	s.diffs[i-1] = s.diffs[i].over(s.diffs[i-1])
	s.diffs[i] = &shelf{}
}

// C25_Ops: any sequence of changes on either level and flushes.
func C25_Ops() {
	sym.MapOrders()
	s := newStack(1)
	ps := somePaths(2)
	all := append(ps, nil)
	for i := 0; i < deep(3, 4); i++ {
		if l := sym.Choose("level", 3); l == 2 {
			s.flush(1)
		} else {
			s.diffs[l].act(s.stores[l], all[sym.Choose("path", 2)])
		}
		s.check(all)
	}
}

// C25_Deep: an overlay over an overlay.
func C25_Deep() {
	sym.MapOrders()
	s := newStack(2)
	ps := somePaths(2)
	for i := 0; i < 3; i++ {
		s.diffs[i].act(s.stores[i], ps[0])
	}
	s.check(ps)
	s.diffs[2].act(s.stores[2], ps[1])
	s.flush(1 + sym.Choose("first", 2))
	s.check(ps)
	s.flush(1 + sym.Choose("second", 2))
	s.check(ps)
	s.diffs[0].act(s.stores[0], ps[1])
	s.check(ps)
}

// C25_Discard: without a flush, nothing happens to the lower store.
func C25_Discard() {
	s := newStack(1)
	ps := somePaths(3)
	s.diffs[0].act(s.stores[0], ps[0])
	for i := 0; i < 3; i++ {
		s.diffs[1].act(s.stores[1], ps[i])
	}
	s.stores, s.diffs = s.stores[:1], s.diffs[:1]
	s.check(ps)
	s.stores = append(s.stores, &tree.OverlayStore{Lower: s.stores[0]})
	s.diffs = append(s.diffs, &shelf{})
	s.check(ps)
}

// view is a tree at some level with what it should hold.
func expect(st tree.Store, s *shadow, pool [][20]byte, label string) {
	t := &tree.PMTree{Store: st}
	for _, k := range pool {
		kk := k
		v := t.GetEntry(&kk)
		want := s.get(k)
		sym.Assert(len(v) == len(want) && sym.EqBytes(v, want), label)
	}
	sym.Assert(t.Hash() == s.root(), label+" (root hash)")
}

// C25_Tree: a tree on an overlay changes nothing below until the flush.
func C25_Tree() {
	sym.MapOrders()
	base := baseKey()
	pool := [][20]byte{base, spread("key", base, 0, 39), spread("key", base, 38, 39)}
	mem := tree.NewMemStore()
	l := &lab{t: &tree.PMTree{Store: mem}, s: &shadow{}, other: newOtherTree()}
	for i := 0; i < 2; i++ {
		l.put(pool[i], sym.Bytes("value", 1))
	}
	over := &tree.OverlayStore{Lower: mem}
	o := &lab{t: &tree.PMTree{Store: over}, s: l.s.clone(), other: newOtherTree()}
	for i := 0; i < deep(2, 3); i++ {
		o.put(pool[sym.Choose("key", 3)], sym.Bytes("value", sym.Choose("len", 2)))
	}
	expect(mem, l.s, pool, "the lower tree is untouched")
	expect(over, o.s, pool, "the overlay's tree holds the changes")
	if sym.Choose("end", 2) == 0 {
		sym.NoPanic("flushing does not panic", over.Flush)
		l.s = o.s.clone()
		expect(mem, l.s, pool, "the flush carries all changes down")
		expect(over, l.s, pool, "and the overlay still shows them")
	} else {
		over = &tree.OverlayStore{Lower: mem}
		expect(over, l.s, pool, "a fresh overlay shows the lower tree")
	}
	// Life goes on below.
	l.put(pool[sym.Choose("key", 3)], sym.Bytes("value", sym.Choose("len", 2)))
	expect(mem, l.s, pool, "the lower tree goes on as usual")
	expect(over, l.s, pool, "and shows through the empty overlay")
}

// C25_Merge: deletions in the overlay that merge or split branches of the lower tree.
func C25_Merge() {
	sym.MapOrders()
	base := baseKey()
	var pool [][20]byte
	for i := 0; i < 4; i++ {
		k := base
		k[[]int{0, 0, 12, 19}[i]] ^= []byte{0, 0x10, 0x01, 0x01}[i]
		pool = append(pool, k)
	}
	pool = append(pool, within("key", base, []int{37, 24, 0}[sym.Choose("near", deep(2, 3))]))
	mem := tree.NewMemStore()
	l := &lab{t: &tree.PMTree{Store: mem}, s: &shadow{}, other: newOtherTree()}
	for i := 0; i < 4; i++ {
		l.put(pool[i], []byte{byte(i + 1)})
	}
	over := &tree.OverlayStore{Lower: mem}
	o := &lab{t: &tree.PMTree{Store: over}, s: l.s.clone(), other: newOtherTree()}
	o.put(pool[sym.Choose("gone", 4)], nil)
	o.put(pool[4], sym.Bytes("value", 1))
	o.put(pool[sym.Choose("then", 5)], nil)
	expect(mem, l.s, pool, "the lower tree is untouched")
	expect(over, o.s, pool, "the overlay's tree holds the changes")
	sym.NoPanic("flushing does not panic", over.Flush)
	expect(mem, o.s, pool, "the flush carries all changes down")
	o.t = &tree.PMTree{Store: mem}
	o.put(pool[sym.Choose("last", deep(2, 5))], nil)
	expect(mem, o.s, pool, "the lower tree goes on as usual")
}
