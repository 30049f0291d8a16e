package props

import (
	"terorie.dev/nimiq/accounts"
	"terorie.dev/nimiq/tree"
	"terorie.dev/nimiq/wire"
	"verif/harness/sym"
)

// shadow is the reference for a tree: the entries it should have.
type shadow struct {
	keys [][20]byte
	vals [][]byte
}

func (s *shadow) find(k [20]byte) int {
	for i := range s.keys {
		if s.keys[i] == k {
			return i
		}
	}
	return -1
}

func (s *shadow) get(k [20]byte) []byte {
	if i := s.find(k); i >= 0 {
		return s.vals[i]
	}
	return nil
}

// put writes a value and tells whether that changes anything.
func (s *shadow) put(k [20]byte, v []byte) bool {
	i := s.find(k)
	switch {
	case i < 0 && len(v) == 0:
		return false
	case i < 0:
		s.keys, s.vals = append(s.keys, k), append(s.vals, v)
	case len(v) == 0:
		s.keys = append(s.keys[:i:i], s.keys[i+1:]...)
		s.vals = append(s.vals[:i:i], s.vals[i+1:]...)
	case sym.EqBytes(s.vals[i], v):
		return false
	default:
		s.vals = append([][]byte(nil), s.vals...)
		s.vals[i] = v
	}
	return true
}

func (s *shadow) clone() *shadow {
	return &shadow{append([][20]byte(nil), s.keys...), append([][]byte(nil), s.vals...)}
}

func (s *shadow) root() [32]byte {
	var es []entry
	for i := range s.keys {
		es = append(es, entry{nibblesOf(s.keys[i]), s.vals[i]})
	}
	return refRootHash(es)
}

// within makes an arbitrary key whose first n nibbles are those of base.
func within(name string, base [20]byte, n int) [20]byte {
	k := base
	for i := range k {
		switch {
		case 2*i >= n:
			k[i] = sym.U8(name)
		case 2*i+1 >= n:
			k[i] = k[i]&0xf0 | sym.U8(name)&0x0f
		}
	}
	return k
}

// spread makes a key that differs from base in the nibbles given, taking one of three values there.
func spread(name string, base [20]byte, at ...int) [20]byte {
	k := base
	for _, i := range at {
		d := sym.U8(name)
		sym.Assume(sym.Or(d == 0, d == 9, d == 15))
		if i%2 == 0 {
			k[i/2] = k[i/2]&0x0f | d<<4
		} else {
			k[i/2] = k[i/2]&0xf0 | d
		}
	}
	return k
}

// baseKey has 9 in its outer nibbles.
func baseKey() (k [20]byte) {
	for i := range k {
		k[i] = byte(0x31 + 7*i)
	}
	k[0], k[19] = 0x99, 0x99
	return
}

// lab is a tree next to its reference.
type lab struct {
	t     *tree.PMTree
	s     *shadow
	pool  [][20]byte
	reads bool // check readings, else the root hash
	other *otherTree
}

func newLab(reads bool, pool ...[20]byte) *lab {
	return &lab{t: &tree.PMTree{Store: tree.NewMemStore()}, s: &shadow{}, pool: pool, reads: reads, other: newOtherTree()}
}

func (l *lab) put(k [20]byte, v []byte) {
	kk := k
	var changed bool
	sym.NoPanic("an update does not panic", func() { changed = l.t.PutEntry(&kk, dup(v)) })
	want := l.s.put(k, v)
	if l.reads {
		sym.Assert(kk == k, "the key is left alone")
		sym.Assert(changed == want, "a change is reported exactly when the value differs")
	}
}

func (l *lab) check() {
	l.other.check()
	if !l.reads {
		sym.Assert(l.t.Hash() == l.s.root(), "the root hash commits to exactly the current contents")
		return
	}
	for _, k := range l.pool {
		kk := k
		v := l.t.GetEntry(&kk)
		want := l.s.get(k)
		sym.Assert(len(v) == len(want) && sym.EqBytes(v, want), "every key reads as last written")
	}
}

// op writes or deletes.
func (l *lab) op(k [20]byte, lens ...int) {
	l.put(k, sym.Bytes("value", lens[sym.Choose("len", len(lens))]))
	l.check()
}

// anyKey: one key is arbitrary.
func anyKey(reads bool) {
	base := baseKey()
	k := within("key", base, 0)
	l := newLab(reads, base, k)
	l.op(base, 1)
	l.op(k, 1, 0)
	i := sym.Choose("then", 2)
	l.op(l.pool[i], 0, 2)
	if sym.Thorough() {
		l.op(l.pool[sym.Choose("then", 2)], 0, 1)
	}
}

// nearKey: a third key next to two others anywhere, close to one of them.
func nearKey(reads bool) {
	base := baseKey()
	other := base
	other[9] ^= 0x10
	if sym.Choose("apart", 2) == 1 {
		other = base
		other[0] ^= 0x30
	}
	k := within("key", base, []int{38, 18, 0}[sym.Choose("shared", deep(2, 3))])
	l := newLab(reads, base, other, k)
	l.op(base, 1)
	l.op(other, 1)
	l.op(k, 1)
	l.op(l.pool[sym.Choose("then", 3)], 0, 1)
}

var spots = [][]int{{0, 1}, {0, 39}, {38, 39}, {10, 11}}

// steps: any sequence of writes and deletions over a few keys.
func steps(reads bool, n int) {
	base := baseKey()
	at := spots[sym.Choose("spots", deep(2, 4))]
	pool := [][20]byte{base, spread("key", base, at...), spread("key", base, at...)}
	l := newLab(reads, pool...)
	act := actors{max: 3}
	for i := 0; i < n; i++ {
		k := pool[act.pick("key")]
		if i == 0 {
			l.op(k, 1)
		} else {
			l.op(k, 1, 0)
		}
	}
}

// crowd: many keys, of which one or two come and go.
func crowd(reads bool) {
	base := baseKey()
	var pool [][20]byte
	for i := 0; i < 6; i++ {
		k := base
		k[[]int{0, 0, 5, 5, 19, 19}[i]] ^= []byte{0x10, 0x01, 0x40, 0x02, 0x20, 0x04}[i]
		pool = append(pool, k)
	}
	gone := sym.Choose("gone", 6)
	k := spread("key", base, []int{0, 10, 11, 38, 39}[sym.Choose("at", 5)])
	l := newLab(reads, append(pool, k)...)
	for _, p := range pool {
		l.put(p, []byte{1, p[0]})
	}
	l.op(k, 1)
	l.op(pool[gone], 0, 2)
	l.op(k, 0, 1)
	l.op(pool[gone], 0, 2)
}

// full: a branch with all sixteen children is emptied one by one.
func full(reads bool) {
	base := baseKey()
	at := []int{0, 20, 39}[sym.Choose("at", 3)]
	var pool [][20]byte
	for d := byte(0); d < 16; d++ {
		k := base
		if at%2 == 0 {
			k[at/2] = k[at/2]&15 | d<<4
		} else {
			k[at/2] = k[at/2]&0xf0 | d
		}
		pool = append(pool, k)
	}
	l := newLab(reads, pool...)
	for _, k := range pool {
		l.op(k, 1)
	}
	first := sym.Choose("first", deep(4, 16))
	for i := range pool {
		l.op(pool[(i*7+first)%16], 0)
	}
}

// ---- C22 ----

func anyAccount(name string) wire.Account {
	switch sym.Choose("kind", 3) {
	case 0:
		return &wire.BasicAccount{Value: sym.U64(name)}
	case 1:
		a := rVesting().gen(name)
		return &a
	}
	a := rHTLC().gen(name)
	return &a
}

func putAcc(a *accounts.Accounts, addr [20]byte, acc wire.Account) {
	at := addr
	sym.NoPanic("storing does not panic", func() { a.PutAccount(&at, acc) })
	sym.Assert(at == addr, "the address is left alone")
}

func getAcc(a *accounts.Accounts, addr [20]byte) (acc wire.Account) {
	sym.NoPanic("reading does not panic", func() { acc = a.GetAccount(&addr) })
	return
}

func newState() *accounts.Accounts {
	return accounts.NewAccounts(&tree.PMTree{Store: tree.NewMemStore()})
}

// emptyBasic tells whether storing the account removes the entry.
func emptyBasic(acc wire.Account) bool {
	b, ok := acc.(*wire.BasicAccount)
	return acc == nil || ok && b.Value == 0
}

func stored(acc wire.Account) wire.Account {
	if emptyBasic(acc) {
		return &wire.BasicAccount{}
	}
	return acc
}

// C22_One stores any account anywhere.
func C22_One() {
	a := newState()
	var addr, other [20]byte
	sym.Fill("address", addr[:])
	other = addr
	other[sym.Choose("other", 20)] ^= 1 << uint(sym.Choose("bit", 8))
	acc := anyAccount("account")
	keep := owned(acc)
	putAcc(a, addr, acc)
	sym.Assert(sameAcc(acc, keep), "the account is left alone")
	sym.Assert(sameAcc(getAcc(a, addr), stored(keep)), "reads back equal and of the same kind")
	sym.Assert(sameAcc(getAcc(a, other), &wire.BasicAccount{}), "another address reads as an empty basic account")
	k := addr
	sym.Assert((len(a.Tree.GetEntry(&k)) == 0) == emptyBasic(keep), "only empty basic accounts have no entry")
}

// C22_Own: accounts handed in or out share nothing with the state.
func C22_Own() {
	a := newState()
	addr := baseKey()
	acc := anyAccount("account")
	keep := owned(acc)
	putAcc(a, addr, acc)
	scribble(acc)
	got := getAcc(a, addr)
	sym.Assert(sameAcc(got, stored(keep)), "later changes to the stored account do not matter")
	if !emptyBasic(keep) {
		scribble(got)
		sym.Assert(sameAcc(getAcc(a, addr), keep), "nor do changes to one that was read")
	}
}

func scribble(acc wire.Account) {
	switch acc := acc.(type) {
	case *wire.BasicAccount:
		acc.Value++
	case *wire.VestingAccount:
		acc.Value++
		acc.Owner[3]++
	case *wire.HTLCAccount:
		acc.Value++
		acc.Hash.Bytes[5]++
	}
}

// C22_Replace: a second store at the same or another address.
func C22_Replace() {
	a := newState()
	base := baseKey()
	first := anyAccount("first")
	putAcc(a, base, owned(first))
	addr := base
	if i := sym.Choose("at", 4); i > 0 {
		addr = within("address", base, []int{0, 39, 20}[i-1])
	}
	var second wire.Account
	if sym.Choose("nothing", 2) == 0 {
		second = anyAccount("second")
	}
	var keep wire.Account
	if second != nil {
		keep = owned(second)
	}
	putAcc(a, addr, second)
	sym.Assert(sameAcc(getAcc(a, addr), stored(keep)), "reads as last stored")
	if addr != base {
		sym.Assert(sameAcc(getAcc(a, base), stored(first)), "the other address is unchanged")
	}
	k := addr
	sym.Assert((len(a.Tree.GetEntry(&k)) == 0) == emptyBasic(keep), "only empty basic accounts have no entry")
}

// C22_Emptied contracts stay.
func C22_Emptied() {
	a := newState()
	addr := baseKey()
	acc := anyAccount("account")
	switch c := acc.(type) {
	case *wire.VestingAccount:
		c.Value = 0
	case *wire.HTLCAccount:
		c.Value = 0
	case *wire.BasicAccount:
		sym.Assume(c.Value != 0)
	}
	putAcc(a, addr, owned(acc))
	sym.Assert(sameAcc(getAcc(a, addr), acc), "emptied contracts stay until pruned")
	if sym.Choose("how", 2) == 0 {
		putAcc(a, addr, nil)
	} else {
		putAcc(a, addr, &wire.BasicAccount{})
	}
	sym.Assert(sameAcc(getAcc(a, addr), &wire.BasicAccount{}), "removed")
	k := addr
	sym.Assert(len(a.Tree.GetEntry(&k)) == 0, "without a trace")
	sym.Assert(a.Tree.Hash() == refRootHash(nil), "as in a fresh state")
}

// C22_Steps: several stores over several addresses.
func C22_Steps() {
	a := newState()
	w := &world{addrs: [][20]byte{baseKey(), baseKey(), baseKey()}}
	w.addrs[1][0] ^= 0x10
	w.addrs[2][19] ^= 0x01
	w.accs = make([]wire.Account, 3)
	act := actors{max: 3}
	for i := 0; i < deep(3, 4); i++ {
		j := act.pick("address")
		var acc wire.Account
		switch sym.Choose("kind", 4) {
		case 1:
			acc = &wire.BasicAccount{Value: sym.U64("balance")}
		case 2:
			c := rVesting().gen("account")
			acc = &c
		case 3:
			c := rHTLC().gen("account")
			acc = &c
		}
		putAcc(a, w.addrs[j], acc)
		w.put(j, acc)
	}
	sym.Assert(w.matches(a), "every address reads as last stored")
	sym.Assert(a.Tree.Hash() == refRootHash(w.entries()), "and there are no other entries")
}

// ---- C23, C24 ----

func C23_Any()   { anyKey(true) }
func C23_Near()  { nearKey(true) }
func C23_Steps() { steps(true, deep(5, 6)) }
func C23_Crowd() { crowd(true) }
func C23_Full()  { full(true) }

// C23_Absent: arbitrary keys read as nothing in an empty tree and after deletion.
func C23_Absent() {
	base := baseKey()
	k := within("key", base, 0)
	l := newLab(true, k)
	l.check()
	l.op(k, 0)
	l.op(k, 1, 2)
	l.op(k, 0)
	l.op(k, 0)
}

// C23_Value: values of any length and content.
func C23_Value() {
	base := baseKey()
	l := newLab(true, base)
	// 9, 53 and 95 bytes are what the account kinds take.
	l.op(base, 0, 1, 2, 3, 9, 40, 53, 95)
	l.op(base, 0, 1, 2, 3, 9, 40, 53, 95)
	l.put(base, l.s.get(base))
	l.check()
}

func C24_Any()   { anyKey(false) }
func C24_Near()  { nearKey(false) }
func C24_Steps() { steps(false, deep(5, 6)) }
func C24_Crowd() { crowd(false) }
func C24_Full()  { full(false) }

// C24_Empty: the empty tree, fresh or emptied.
func C24_Empty() {
	l := newLab(false)
	l.check()
	k := within("key", baseKey(), 0)
	l.op(k, 1)
	l.op(k, 0)
}

// C24_Distinct: different contents have different root hashes.
func C24_Distinct() {
	base := baseKey()
	k := within("key", base, 0)
	l, m := newLab(false), newLab(false)
	l.put(base, sym.Bytes("value", 1+sym.Choose("len", 2)))
	switch sym.Choose("other", 4) {
	case 0: // one other entry
		m.put(k, sym.Bytes("value", 1+sym.Choose("len", 2)))
	case 1: // a further entry
		m.put(base, l.s.get(base))
		m.put(k, sym.Bytes("value", 1))
	case 2: // two entries each
		m.put(base, sym.Bytes("value", 1))
		m.put(k, sym.Bytes("value", 1))
		l.put(k, sym.Bytes("value", 1))
	case 3: // nothing
	}
	equal := len(l.s.keys) == len(m.s.keys)
	for i, k := range l.s.keys {
		v := m.s.get(k)
		equal = sym.And(equal, len(v) == len(l.s.vals[i]) && sym.EqBytes(v, l.s.vals[i]))
	}
	sym.Assert((l.t.Hash() == m.t.Hash()) == equal, "equal hashes exactly for equal contents")
}

// C24_Order: the order of insertions does not matter.
func C24_Order() {
	base := baseKey()
	pool := [][20]byte{base, spread("key", base, 0, 39), spread("key", base, 38, 39)}
	if sym.Thorough() {
		pool = append(pool, spread("key", base, 0, 20))
	}
	vals := [][]byte{sym.Bytes("v", 1), sym.Bytes("v", 1), sym.Bytes("v", 1), sym.Bytes("v", 1)}
	l := newLab(false)
	seen := &shadow{}
	for i, k := range pool {
		if seen.find(k) >= 0 {
			return
		}
		seen.put(k, vals[i])
		l.put(k, vals[i])
	}
	m := newLab(false)
	left := []int{0, 1, 2, 3}[:len(pool)]
	for len(left) > 0 {
		j := sym.Choose("next", len(left))
		i := left[j]
		left = append(left[:j:j], left[j+1:]...)
		m.put(pool[i], vals[i])
	}
	sym.Assert(l.t.Hash() == m.t.Hash(), "the same contents have the same hash")
}
