package props

// A reference model of the state and of block application.

import (
	"math/bits"

	"golang.org/x/crypto/blake2b"
	"terorie.dev/nimiq/accounts"
	"terorie.dev/nimiq/tree"
	"terorie.dev/nimiq/wire"
	"verif/harness/sym"
)

// pubOf is the i-th key; addrOf its address.
func pubOf(i int) (p [32]byte) {
	for j := range p {
		p[j] = byte(17*i + 3*j + 1)
	}
	return
}

func addrOf(i int) [20]byte {
	p := pubOf(i)
	h := blake2b.Sum256(p[:])
	var a [20]byte
	copy(a[:], h[:])
	return a
}

// world is a small set of addresses and what is stored there.
type world struct {
	addrs [][20]byte
	accs  []wire.Account // nil: nothing
}

// keyWorld has n addresses with known keys and m further ones that share prefixes with them.
func keyWorld(n, m int) *world {
	w := &world{}
	for i := 0; i < n; i++ {
		w.addrs = append(w.addrs, addrOf(i))
	}
	for i := 0; i < m; i++ {
		a := addrOf(i % n)
		a[[]int{19, 9, 0}[i%3]] ^= 1
		w.addrs = append(w.addrs, a)
	}
	w.accs = make([]wire.Account, n+m)
	return w
}

func (w *world) basic(name string, is ...int) {
	for _, i := range is {
		w.accs[i] = &wire.BasicAccount{Value: sym.U64(name)}
	}
}

func (w *world) clone() *world {
	c := &world{addrs: w.addrs, accs: make([]wire.Account, len(w.accs))}
	for i, a := range w.accs {
		if a != nil {
			c.accs[i] = owned(a)
		}
	}
	return c
}

func (w *world) at(a [20]byte) int {
	for i := range w.addrs {
		if w.addrs[i] == a {
			return i
		}
	}
	panic("address outside the harness's world")
}

func (w *world) get(i int) wire.Account {
	if w.accs[i] == nil {
		return &wire.BasicAccount{}
	}
	return w.accs[i]
}

// put stores an account; empty basic accounts vanish.
func (w *world) put(i int, a wire.Account) {
	if b, ok := a.(*wire.BasicAccount); ok && b.Value == 0 {
		a = nil
	}
	w.accs[i] = a
}

// store puts the world into a new state.
func (w *world) store() *accounts.Accounts {
	a := accounts.NewAccounts(&tree.PMTree{Store: tree.NewMemStore()})
	w.fill(a)
	return a
}

func (w *world) fill(a *accounts.Accounts) {
	for i, acc := range w.accs {
		if acc != nil {
			addr := w.addrs[i]
			a.PutAccount(&addr, owned(acc))
		}
	}
	for i := range w.accs {
		w.put(i, w.accs[i])
	}
}

// matches compares every account of the world with the state.
func (w *world) matches(a *accounts.Accounts) bool {
	ok := true
	for i := range w.addrs {
		addr := w.addrs[i]
		ok = sym.And(ok, sameAcc(a.GetAccount(&addr), w.get(i)))
	}
	return ok
}

// total adds up all balances.
func (w *world) total() (hi, lo uint64) {
	for i := range w.accs {
		var c uint64
		lo, c = bits.Add64(lo, w.get(i).Balance(), 0)
		hi += c
	}
	return
}

// encoded is what is stored for an account.
func encoded(a wire.Account) []byte { return rAcc().enc(nil, wire.WrapAccount{Account: a}) }

// entry is a key and its value.
type entry struct {
	path  []byte // 40 nibbles
	value []byte
}

func (w *world) entries() (es []entry) {
	for i, a := range w.accs {
		if a == nil {
			continue
		}
		if b, ok := a.(*wire.BasicAccount); ok && b.Value == 0 {
			continue
		}
		es = append(es, entry{nibblesOf(w.addrs[i]), encoded(a)})
	}
	return
}

func nibblesOf(key [20]byte) []byte {
	n := make([]byte, 0, 40)
	for _, b := range key {
		n = append(n, b>>4, b&15)
	}
	return n
}

func hexOf(n []byte) []byte {
	h := make([]byte, len(n))
	for i, x := range n {
		h[i] = "0123456789abcdef"[x]
	}
	return h
}

// refRootHash is the root hash of the tree holding exactly the entries.
func refRootHash(es []entry) [32]byte { return refBranch(es, 0) }

func refBranch(es []entry, depth int) [32]byte {
	var prefix []byte
	if len(es) > 0 {
		prefix = es[0].path[:depth]
	}
	buf := append([]byte{0, byte(depth)}, hexOf(prefix)...)
	n := byte(0)
	var kids []byte
	for nb := byte(0); nb < 16; nb++ {
		var sub []entry
		for _, e := range es {
			if e.path[depth] == nb {
				sub = append(sub, e)
			}
		}
		if len(sub) == 0 {
			continue
		}
		n++
		end := 40
		var hash [32]byte
		if len(sub) == 1 {
			hash = blake2b.Sum256(append(append([]byte{0xff, 40}, hexOf(sub[0].path)...), sub[0].value...))
		} else {
			end = depth
			for same(sub, end) {
				end++
			}
			hash = refBranch(sub, end)
		}
		kids = append(kids, byte(end-depth))
		kids = append(kids, hexOf(sub[0].path[depth:end])...)
		kids = append(kids, hash[:]...)
	}
	buf = append(append(buf, n), kids...)
	return blake2b.Sum256(buf)
}

// same tells whether all entries have the same nibble at i.
func same(es []entry, i int) bool {
	for _, e := range es {
		if e.path[i] != es[0].path[i] {
			return false
		}
	}
	return true
}

// ---- block application ----

// refReward is the block reward: the remaining supply over the emission speed.
func refReward(height uint32) uint64 {
	supply := uint64(252000000000000)
	for h := uint32(1); ; h++ {
		r := (2100000000000000 - supply) / 4194304
		if h >= height {
			return r
		}
		supply += r
	}
}

// refOutgoing charges a transaction to an account.
func refOutgoing(acc wire.Account, tx wire.Tx, height uint32) (wire.Account, bool) {
	value, fee := tx.Amount()
	left, ok := refSpend(acc.Balance(), value, fee)
	if !ok {
		return nil, false
	}
	ext, isExt := tx.(*wire.ExtendedTx)
	switch c := acc.(type) {
	case *wire.BasicAccount:
		return &wire.BasicAccount{Value: left}, true
	case *wire.VestingAccount:
		if !isExt || left < refLocked(c, height) {
			return nil, false
		}
		p, rest, ok := rProof(0).dec(ext.Proof)
		if !ok || len(rest) != 0 || refSigner(&p) != c.Owner {
			return nil, false
		}
		d := *c
		d.Value = left
		return &d, true
	case *wire.HTLCAccount:
		if !isExt {
			return nil, false
		}
		if p := decHTLC(ext.Proof); !p.entitled(c, height) {
			return nil, false
		}
		d := *c
		d.Value = left
		return &d, true
	}
	panic("unknown account")
}

type party struct {
	sender, recipient int
	st, rt            uint8
	create            bool
	data              []byte
}

func (w *world) party(tx wire.Tx) (p party) {
	switch t := tx.(type) {
	case *wire.BasicTx:
		h := blake2b.Sum256(t.SenderPubKey[:])
		var a [20]byte
		copy(a[:], h[:])
		p.sender, p.recipient = w.at(a), w.at(t.Recipient)
	case *wire.ExtendedTx:
		p.sender, p.recipient = w.at(t.Sender), w.at(t.Recipient)
		p.st, p.rt, p.create, p.data = t.SenderType, t.RecipientType, t.Flags&1 != 0, t.Data
	}
	return
}

// credit adds to a basic account.
func (w *world) credit(i int, amount uint64) bool {
	acc := w.get(i)
	if acc.Type() != 0 {
		return false
	}
	sum, carry := bits.Add64(acc.Balance(), amount, 0)
	if carry != 0 {
		return false
	}
	w.put(i, &wire.BasicAccount{Value: sum})
	return true
}

// charge runs the first phase.
func (w *world) charge(b *wire.Block) bool {
	for _, t := range b.Body.Txs {
		p := w.party(t.Tx)
		acc := w.get(p.sender)
		if acc.Type() != p.st {
			return false
		}
		acc, ok := refOutgoing(acc, t.Tx, b.Header.Height)
		if !ok {
			return false
		}
		w.put(p.sender, acc)
	}
	return true
}

// pay runs the second phase.
func (w *world) pay(b *wire.Block) bool {
	for _, t := range b.Body.Txs {
		p := w.party(t.Tx)
		if !p.create && p.rt != w.get(p.recipient).Type() {
			return false
		}
		value, _ := t.Tx.Amount()
		if !w.credit(p.recipient, value) {
			return false
		}
	}
	return true
}

// found runs the third phase.
func (w *world) found(b *wire.Block) bool {
	for _, t := range b.Body.Txs {
		p := w.party(t.Tx)
		if !p.create {
			continue
		}
		if p.rt != 1 && p.rt != 2 {
			return false
		}
		value, _ := t.Tx.Amount()
		kind := 1
		if p.rt == 2 {
			kind = 2
		}
		acc, ok := refCreate(kind, p.data, value, w.get(p.recipient).Balance())
		if !ok {
			return false
		}
		w.put(p.recipient, acc)
	}
	return true
}

// prune runs the fourth phase.
func (w *world) prune(b *wire.Block) bool {
	gone := make([]bool, len(w.accs))
	n := 0
	for _, t := range b.Body.Txs {
		i := w.party(t.Tx).sender
		acc := w.get(i)
		if acc.Type() == 0 || acc.Balance() != 0 || gone[i] {
			continue
		}
		found := 0
		for _, l := range b.Body.Pruned {
			if l.Address == w.addrs[i] {
				found++
				if l.Account.Account == nil || !sameAcc(l.Account.Account, acc) {
					return false
				}
			}
		}
		if found != 1 {
			return false
		}
		gone[i] = true
		n++
	}
	if n != len(b.Body.Pruned) {
		return false
	}
	for i := range gone {
		if gone[i] {
			w.accs[i] = nil
		}
	}
	return true
}

// mine runs the last phase.
func (w *world) mine(b *wire.Block) bool {
	sum := refReward(b.Header.Height)
	for _, t := range b.Body.Txs {
		_, fee := t.Tx.Amount()
		var c uint64
		if sum, c = bits.Add64(sum, fee, 0); c != 0 {
			return false
		}
	}
	return w.credit(w.at(b.Body.MinerAddr), sum)
}

// refPush applies a block, or reports that it is invalid.
func (w *world) refPush(b *wire.Block) (*world, bool) {
	if b.Header.Height < 1 || b.Body == nil {
		return nil, false
	}
	for _, t := range b.Body.Txs {
		if t.Tx == nil {
			return nil, false
		}
	}
	n := w.clone()
	if !n.charge(b) || !n.pay(b) || !n.found(b) || !n.prune(b) || !n.mine(b) {
		return nil, false
	}
	return n, true
}

// push applies a block to the state without panicking.
func push(a *accounts.Accounts, b *wire.Block) (err error) {
	sym.NoPanic("applying a block does not panic", func() { err = a.Push(b) })
	return
}
