package props

import (
	"math/bits"

	"terorie.dev/nimiq/accounts"
	"terorie.dev/nimiq/wire"
	"verif/harness/sym"
)

// actors picks addresses up to renaming: each is an earlier one or the next new one.
type actors struct{ used, max int }

func (a *actors) pick(name string) int {
	n := a.used + 1
	if n > a.max {
		n = a.max
	}
	i := sym.Choose(name, n)
	if i == a.used {
		a.used++
	}
	return i
}

// transfer is a transaction between basic accounts.
func (w *world) transfer(format, from, to int) wire.WrapTx {
	value, fee := sym.U64("value"), sym.U64("fee")
	if format == 0 {
		return wire.WrapTx{Tx: &wire.BasicTx{SenderPubKey: pubOf(from), Recipient: w.addrs[to], Value: value, Fee: fee}}
	}
	return wire.WrapTx{Tx: &wire.ExtendedTx{Sender: w.addrs[from], Recipient: w.addrs[to], Value: value, Fee: fee}}
}

// conserves applies a block and checks that value is conserved.
func conserves(w *world, a *accounts.Accounts, b *wire.Block) {
	hi, lo := w.total()
	err := push(a, b)
	if err != nil {
		return
	}
	sym.Reach("applied")
	lo, c := bits.Add64(lo, refReward(b.Header.Height), 0)
	hi += c
	after := w.clone()
	for i := range after.addrs {
		addr := after.addrs[i]
		after.accs[i] = nil
		after.put(i, a.GetAccount(&addr))
	}
	hi2, lo2 := after.total()
	sym.Assert(sym.And(hi == hi2, lo == lo2), "the sum of all balances grows by exactly the block reward")
	sym.Assert(a.Tree.Hash() == refRootHash(after.entries()), "there are no further accounts")
}

func height() uint32 { return []uint32{2, 1, 40}[sym.Choose("height", deep(1, 3))] }

func block(h uint32, miner [20]byte, txs ...wire.WrapTx) *wire.Block {
	return &wire.Block{Header: wire.BlockHeader{Height: h}, Body: &wire.BlockBody{MinerAddr: miner, Txs: txs}}
}

func C18_Transfers() {
	n := deep(2, 3)
	w := keyWorld(deep(4, 5), 0)
	w.basic("balance", 0, 1, 2, 3)
	a := w.store()
	act := actors{max: deep(3, 5)}
	var txs []wire.WrapTx
	for i := 0; i < n; i++ {
		from := act.pick("from")
		txs = append(txs, w.transfer(i%2, from, act.pick("to")))
	}
	conserves(w, a, block(height(), w.addrs[act.pick("miner")], txs...))
}

// setup makes a state with n basic accounts (known keys), m of them at
// addresses close to others, and the number of contracts given.
type scene struct {
	*world
	n     int // addresses 0..n-1 hold basic accounts or nothing
	k     int // address of the contract
	fresh int // address without entry
	owner []byte
}

// contract makes a contract of some kind that the proof's signer can spend from.
func contract(kind int, owner [20]byte) wire.Account {
	if kind == 1 {
		c := &wire.VestingAccount{Value: sym.U64("contract"), Owner: owner, VestingStart: 1, VestingStepBlocks: 1}
		c.VestingStepAmount, c.VestingTotalAmount = sym.U64("step"), sym.U64("total")
		return c
	}
	return &wire.HTLCAccount{Value: sym.U64("contract"), Sender: owner, Recipient: addrOf(7), HashCount: 1, Timeout: 0, TotalAmount: sym.U64("total")}
}

// claim is the proof with which key i empties such a contract.
func claim(kind, i int) []byte {
	pub := pubOf(i)
	p := make([]byte, 97)
	copy(p, pub[:])
	if kind == 2 {
		return append([]byte{3}, p...)
	}
	return p
}

// newScene has two basic accounts, a contract of the kind, and a free address.
func newScene(kind int) *scene {
	w := keyWorld(3, 2)
	s := &scene{world: w, n: 2, k: 3, fresh: 4}
	w.basic("balance", 0, 1)
	w.accs[s.k] = contract(kind, w.addrs[0])
	return s
}

func (s *scene) spend(kind, to int, value, fee uint64) *wire.ExtendedTx {
	return &wire.ExtendedTx{Sender: s.addrs[s.k], SenderType: uint8(kind), Recipient: s.addrs[to], Value: value, Fee: fee, Proof: claim(kind, 0)}
}

// emptied lists the contract as it is after the block's transactions.
func (s *scene) emptied() wire.AccountPruned {
	acc := owned(s.accs[s.k])
	switch a := acc.(type) {
	case *wire.VestingAccount:
		a.Value = 0
	case *wire.HTLCAccount:
		a.Value = 0
	}
	return wire.AccountPruned{Address: s.addrs[s.k], Account: wire.WrapAccount{Account: acc}}
}

// C18_Contract spends from a contract, emptying it or not.
func C18_Contract() {
	kind := 1 + sym.Choose("kind", 2)
	s := newScene(kind)
	a := s.store()
	to := []int{0, 2, s.k}[sym.Choose("to", 3)]
	txs := []wire.WrapTx{{Tx: s.spend(kind, to, sym.U64("value"), sym.U64("fee"))}}
	switch sym.Choose("second", deep(2, 3)) {
	case 1:
		txs = append(txs, wire.WrapTx{Tx: s.spend(kind, 1, sym.U64("value"), sym.U64("fee"))})
	case 2:
		txs = append(txs, s.transfer(0, 0, 1))
	}
	b := block(2, s.addrs[[]int{0, 2}[sym.Choose("miner", deep(1, 2))]], txs...)
	if sym.Choose("prune", 2) == 1 {
		b.Body.Pruned = []wire.AccountPruned{s.emptied()}
	}
	conserves(s.world, a, b)
}

// creation is a transaction that creates a contract.
func (s *scene) creation(kind uint8, from, to int) *wire.ExtendedTx {
	tx := &wire.ExtendedTx{Sender: s.addrs[from], Recipient: s.addrs[to], RecipientType: kind, Value: sym.U64("value"), Fee: sym.U64("fee"), Flags: 1}
	n := 24
	if kind == 2 {
		n = 78
	}
	tx.Data = sym.Bytes("data", n)
	return tx
}

// C18_Create creates contracts, at a new address, on top of a balance, and twice.
func C18_Create() {
	s := newScene(1)
	a := s.store()
	kind := uint8(1 + sym.Choose("kind", 2))
	to := []int{0, 1, s.fresh}[sym.Choose("to", 3)]
	txs := []wire.WrapTx{{Tx: s.creation(kind, 0, to)}}
	switch sym.Choose("second", deep(2, 3)) {
	case 1:
		txs = append(txs, s.transfer(1, 1, to))
	case 2:
		txs = append(txs, wire.WrapTx{Tx: s.creation(1, 1, to)})
	}
	miner := []int{s.fresh, 0, 2}[sym.Choose("miner", deep(2, 3))]
	b := block(2, s.addrs[miner], txs...)
	conserves(s.world, a, b)
}

// C18_Blocks applies blocks in a row.
func C18_Blocks() {
	w := keyWorld(2, 1)
	w.basic("balance", 0)
	a := w.store()
	cur := w
	for h := uint32(1); h <= uint32(deep(2, 3)); h++ {
		from := sym.Choose("from", 2)
		b := block(h, w.addrs[2], cur.transfer(int(h)%2, from, 1-from))
		conserves(cur, a, b)
		next := cur.clone()
		for i := range next.addrs {
			addr := next.addrs[i]
			next.put(i, a.GetAccount(&addr))
		}
		cur = next
	}
}

// C18_Wrap: fees and rewards at the limits of 64 bits.
func C18_Wrap() {
	w := keyWorld(4, 0)
	w.basic("balance", 0, 1, 2, 3)
	a := w.store()
	var txs []wire.WrapTx
	payer := sym.Choose("value", 3)
	for i := 0; i < 3; i++ {
		t := w.transfer(0, i, (i+1)%3).Tx.(*wire.BasicTx)
		if i != payer {
			t.Value = 0
		}
		txs = append(txs, wire.WrapTx{Tx: t})
	}
	conserves(w, a, block(1, w.addrs[3], txs...))
}

// ---- C19 ----

// untouched applies a block; when that fails, nothing has changed.
func untouched(w *world, a *accounts.Accounts, b *wire.Block) error {
	root := a.Tree.Hash()
	before := w.clone()
	err := push(a, b)
	if err != nil {
		sym.Reach("rejected")
		sym.Assert(before.matches(a), "every account is what it was before")
		sym.Assert(a.Tree.Hash() == root, "the root hash is what it was before")
	} else {
		sym.Reach("applied")
	}
	return err
}

// C19_Shape: blocks that lack parts.
func C19_Shape() {
	s := newScene(1 + sym.Choose("kind", 2))
	a := s.store()
	b := block(2, s.addrs[0])
	switch sym.Choose("shape", 9) {
	case 0:
		b.Body = nil
	case 1:
		b.Header.Height = 0
	case 2:
		b.Header.Height = 0
		b.Body = nil
	case 3:
		b.Body.Txs = []wire.WrapTx{{}}
	case 4:
		b.Body.Txs = []wire.WrapTx{s.transfer(0, 0, 1), {}}
	case 5:
		b.Body.Pruned = []wire.AccountPruned{{Address: s.addrs[s.k]}}
	case 6:
		b.Body.Txs = []wire.WrapTx{{Tx: s.spend(int(s.accs[s.k].Type()), 1, sym.U64("value"), 0)}}
		b.Body.Pruned = []wire.AccountPruned{{Address: s.addrs[s.k]}}
	case 7:
		b.Body.Pruned = []wire.AccountPruned{{}, {}}
	case 8:
		b.Body.MinerAddr = s.addrs[s.k]
	}
	untouched(s.world, a, b)
}

// C19_Any: arbitrary extended transactions among accounts of all kinds.
func C19_Any() {
	s := newScene(1 + sym.Choose("kind", 2))
	a := s.store()
	n := 1 + sym.Choose("txs", deep(1, 2))
	var txs []wire.WrapTx
	for i := 0; i < n; i++ {
		tx := &wire.ExtendedTx{Value: sym.U64("value"), Fee: sym.U64("fee")}
		tx.Sender = s.addrs[[]int{0, s.k, s.fresh}[sym.Choose("from", 3)]]
		tx.Recipient = s.addrs[[]int{0, 1, s.k, s.fresh}[sym.Choose("to", 4)]]
		tx.SenderType, tx.RecipientType, tx.Flags = sym.U8("st"), sym.U8("rt"), sym.U8("flags")
		tx.Data = sym.Bytes("data", []int{24, 78, 0, 5}[sym.Choose("data", deep(3, 4))])
		tx.Proof = sym.Bytes("proof", []int{97, 98, 0, 1}[sym.Choose("proof", deep(3, 4))])
		txs = append(txs, wire.WrapTx{Tx: tx})
	}
	untouched(s.world, a, block(2, s.addrs[[]int{0, s.k}[sym.Choose("miner", deep(1, 2))]], txs...))
}

// C19_Basic: basic transactions, also from and to contracts.
func C19_Basic() {
	kind := 1 + sym.Choose("kind", 2)
	w := keyWorld(3, 0)
	w.basic("balance", 0)
	w.accs[1] = contract(kind, w.addrs[1])
	a := w.store()
	from, to := sym.Choose("from", 3), sym.Choose("to", 3)
	untouched(w, a, block(1, w.addrs[sym.Choose("miner", 3)], w.transfer(0, from, to)))
}

// C19_Late: a valid first transaction, and a failure at any later phase.
func C19_Late() {
	kind := 1 + sym.Choose("kind", 2)
	s := newScene(kind)
	a := s.store()
	txs := []wire.WrapTx{s.transfer(0, 0, 2)}
	b := block(2, s.addrs[1])
	switch sym.Choose("failure", 8) {
	case 0: // second sender
		txs = append(txs, s.transfer(0, 1, 0))
	case 1: // recipient kind
		t := s.transfer(1, 1, 0)
		t.Tx.(*wire.ExtendedTx).RecipientType = 1
		txs = append(txs, t)
	case 2: // incoming funds
		txs = append(txs, s.transfer(1, 1, s.k))
	case 3: // creation data
		t := s.creation(2, 1, s.fresh)
		t.Data = t.Data[:77]
		txs = append(txs, wire.WrapTx{Tx: t})
	case 4: // missing prune
		txs = append(txs, wire.WrapTx{Tx: s.spend(kind, 2, sym.U64("value"), sym.U64("fee"))})
	case 5: // wrong prune
		txs = append(txs, wire.WrapTx{Tx: s.spend(kind, 2, sym.U64("value"), sym.U64("fee"))})
		p := s.emptied()
		if c, ok := p.Account.Account.(*wire.VestingAccount); ok {
			c.VestingTotalAmount ^= 1
		} else {
			p.Account.Account.(*wire.HTLCAccount).Timeout++
		}
		b.Body.Pruned = []wire.AccountPruned{p}
	case 6: // reward
		b.Body.MinerAddr = s.addrs[s.k]
	case 7: // unjustified prune
		b.Body.Pruned = []wire.AccountPruned{{Address: s.addrs[s.fresh], Account: wire.WrapAccount{Account: &wire.BasicAccount{}}}}
	}
	b.Body.Txs = txs
	untouched(s.world, a, b)
}

// C19_Again: after a rejected block, a valid one applies as if nothing had happened.
func C19_Again() {
	s := newScene(1)
	a := s.store()
	t := s.transfer(0, 0, 1)
	bad := block(1, s.addrs[2], t, s.transfer(1, 1, s.k))
	if untouched(s.world, a, bad) == nil {
		return
	}
	good := block(1, s.addrs[2], t)
	want, ok := s.refPush(good)
	err := push(a, good)
	sym.Assert((err == nil) == ok, "the next block is accepted as usual")
	if ok {
		sym.Assert(want.matches(a), "with the usual result")
		sym.Assert(a.Tree.Hash() == refRootHash(want.entries()), "and the usual root hash")
	}
}

// ---- C20 ----

// prunes applies a block and checks acceptance and result against the reference.
func prunes(s *scene, a *accounts.Accounts, b *wire.Block) {
	want, ok := s.refPush(b)
	err := push(a, b)
	sym.Assert((err == nil) == ok, "accepted exactly with the right prune list")
	if ok {
		sym.Assert(want.matches(a), "the emptied contract is gone, others stay")
		sym.Assert(a.Tree.Hash() == refRootHash(want.entries()), "and so are their entries")
		sym.Reach("applied")
		if want.accs[s.k] == nil {
			sym.Reach("pruned")
		}
	}
}

// C20_List: any content quoted for the contract, any spend.
func C20_List() {
	kind := 1 + sym.Choose("kind", 2)
	s := newScene(kind)
	a := s.store()
	b := block(2, s.addrs[0], wire.WrapTx{Tx: s.spend(kind, 2, sym.U64("value"), sym.U64("fee"))})
	p := s.emptied()
	switch q := p.Account.Account.(type) {
	case *wire.VestingAccount:
		*q = rVesting().gen("listed")
	case *wire.HTLCAccount:
		*q = rHTLC().gen("listed")
	}
	switch sym.Choose("list", 9) {
	case 0: // nothing
	case 1: // any content
		b.Body.Pruned = []wire.AccountPruned{p}
	case 2: // any content at another address
		p.Address = s.addrs[s.fresh]
		b.Body.Pruned = []wire.AccountPruned{p}
	case 3: // the right one
		b.Body.Pruned = []wire.AccountPruned{s.emptied()}
	case 4: // twice
		b.Body.Pruned = []wire.AccountPruned{s.emptied(), s.emptied()}
	case 5: // and another
		p.Address = s.addrs[1]
		b.Body.Pruned = []wire.AccountPruned{s.emptied(), p}
	case 6: // a basic account
		b.Body.Pruned = []wire.AccountPruned{{Address: s.addrs[s.k], Account: wire.WrapAccount{Account: &wire.BasicAccount{Value: sym.U64("listed")}}}}
	case 7: // the other kind
		b.Body.Pruned = []wire.AccountPruned{{Address: s.addrs[s.k], Account: wire.WrapAccount{Account: contract(3-kind, s.addrs[0])}}}
	case 8: // no content
		b.Body.Pruned = []wire.AccountPruned{{Address: s.addrs[s.k]}}
	}
	prunes(s, a, b)
}

// C20_Field: a single altered field in the list.
func C20_Field() {
	kind := 1 + sym.Choose("kind", 2)
	s := newScene(kind)
	a := s.store()
	b := block(2, s.addrs[0], wire.WrapTx{Tx: s.spend(kind, 2, s.accs[s.k].Balance(), 0)})
	p := s.emptied()
	switch q := p.Account.Account.(type) {
	case *wire.VestingAccount:
		switch sym.Choose("field", 7) {
		case 0:
			q.Value = sym.U64("x")
		case 1:
			q.Owner = near("x", q.Owner)
		case 2:
			q.VestingStart = sym.U32("x")
		case 3:
			q.VestingStepBlocks = sym.U32("x")
		case 4:
			q.VestingStepAmount = sym.U64("x")
		case 5:
			q.VestingTotalAmount = sym.U64("x")
		case 6:
			p.Address = near("x", p.Address)
		}
	case *wire.HTLCAccount:
		switch sym.Choose("field", 9) {
		case 0:
			q.Value = sym.U64("x")
		case 1:
			q.Sender = near("x", q.Sender)
		case 2:
			q.Recipient = near("x", q.Recipient)
		case 3:
			q.Hash.Algorithm = sym.U8("x")
		case 4:
			sym.Fill("x", q.Hash.Bytes[:])
		case 5:
			q.HashCount = sym.U8("x")
		case 6:
			q.Timeout = sym.U32("x")
		case 7:
			q.TotalAmount = sym.U64("x")
		case 8:
			p.Address = near("x", p.Address)
		}
	}
	b.Body.Pruned = []wire.AccountPruned{p}
	prunes(s, a, b)
}

// C20_Steps: emptied by the second of two spends, or refilled by none.
func C20_Steps() {
	kind := 1 + sym.Choose("kind", 2)
	s := newScene(kind)
	a := s.store()
	b := block(2, s.addrs[0],
		wire.WrapTx{Tx: s.spend(kind, 2, sym.U64("value"), sym.U64("fee"))},
		wire.WrapTx{Tx: s.spend(kind, 1, sym.U64("value"), sym.U64("fee"))})
	if sym.Choose("listed", 2) == 1 {
		b.Body.Pruned = []wire.AccountPruned{s.emptied()}
	}
	prunes(s, a, b)
}

// C20_Into: the emptying transaction has any type, flags and data, and may create a contract.
func C20_Into() {
	kind := 1 + sym.Choose("kind", 2)
	s := newScene(kind)
	a := s.store()
	tx := s.spend(kind, []int{s.fresh, s.k, 0}[sym.Choose("to", 3)], sym.U64("value"), sym.U64("fee"))
	tx.RecipientType, tx.Flags = sym.U8("rt"), sym.U8("flags")
	tx.Data = sym.Bytes("data", []int{24, 78, 0}[sym.Choose("data", 3)])
	b := block(2, s.addrs[2], wire.WrapTx{Tx: tx})
	if sym.Choose("listed", 2) == 1 {
		b.Body.Pruned = []wire.AccountPruned{s.emptied()}
	}
	prunes(s, a, b)
}

// C20_Two: two contracts, emptied or not, listed in either order.
func C20_Two() {
	s := newScene(1)
	s.accs[s.fresh] = contract(2, s.addrs[0])
	a := s.store()
	one := s.spend(1, 2, sym.U64("value"), 0)
	two := s.spend(2, 2, sym.U64("value"), 0)
	two.Sender = s.addrs[s.fresh]
	b := block(2, s.addrs[0], wire.WrapTx{Tx: one}, wire.WrapTx{Tx: two})
	p := s.emptied()
	k := s.k
	s.k = s.fresh
	q := s.emptied()
	s.k = k
	switch sym.Choose("list", 6) {
	case 1:
		b.Body.Pruned = []wire.AccountPruned{p}
	case 2:
		b.Body.Pruned = []wire.AccountPruned{q}
	case 3:
		b.Body.Pruned = []wire.AccountPruned{p, q}
	case 4:
		b.Body.Pruned = []wire.AccountPruned{q, p}
	case 5:
		p.Account, q.Account = q.Account, p.Account
		b.Body.Pruned = []wire.AccountPruned{p, q}
	}
	prunes(s, a, b)
}

// C20_Basic: emptied basic accounts vanish without being listed.
func C20_Basic() {
	s := newScene(1)
	a := s.store()
	b := block(1, s.addrs[2], s.transfer(sym.Choose("format", 2), 0, 1))
	if sym.Choose("listed", 2) == 1 {
		b.Body.Pruned = []wire.AccountPruned{{Address: s.addrs[0], Account: wire.WrapAccount{Account: &wire.BasicAccount{}}}}
	}
	prunes(s, a, b)
}

// C20_Idle: a contract that no transaction spends from stays, listed or not.
func C20_Idle() {
	kind := 1 + sym.Choose("kind", 2)
	s := newScene(kind)
	a := s.store()
	b := block(1, s.addrs[2], s.transfer(0, 0, 1))
	if sym.Choose("listed", 2) == 1 {
		b.Body.Pruned = []wire.AccountPruned{{Address: s.addrs[s.k], Account: wire.WrapAccount{Account: owned(s.accs[s.k])}}}
	}
	prunes(s, a, b)
}

// ---- C21 ----

// phases applies a block and compares everything with the reference.
func phases(w *world, a *accounts.Accounts, b *wire.Block) *world {
	want, ok := w.refPush(b)
	err := push(a, b)
	sym.Assert((err == nil) == ok, "accepted exactly when every phase succeeds")
	if !ok {
		return w
	}
	sym.Reach("applied")
	for i := range want.addrs {
		addr := want.addrs[i]
		sym.Assert(sameAcc(a.GetAccount(&addr), want.get(i)), "every account is as the phases leave it")
	}
	sym.Assert(a.Tree.Hash() == refRootHash(want.entries()), "and there is nothing else")
	return want
}

func C21_Transfers() {
	w := keyWorld(deep(4, 5), 0)
	w.basic("balance", 0, 1, 2, 3)
	a := w.store()
	act := actors{max: deep(3, 5)}
	var txs []wire.WrapTx
	for i := 0; i < deep(2, 3); i++ {
		from := act.pick("from")
		txs = append(txs, w.transfer(i%2, from, act.pick("to")))
	}
	phases(w, a, block(height(), w.addrs[act.pick("miner")], txs...))
}

// C21_Types: any declared types and flags.
func C21_Types() {
	kind := 1 + sym.Choose("kind", 2)
	s := newScene(kind)
	a := s.store()
	tx := s.spend(kind, []int{0, s.k, s.fresh}[sym.Choose("to", 3)], sym.U64("value"), sym.U64("fee"))
	tx.Sender = s.addrs[[]int{s.k, 1, s.fresh}[sym.Choose("from", 3)]]
	tx.SenderType, tx.RecipientType, tx.Flags = sym.U8("st"), sym.U8("rt"), sym.U8("flags")
	tx.Data = make([]byte, []int{0, 24, 78}[sym.Choose("data", 3)])
	if len(tx.Data) == 78 {
		tx.Data[73] = 3
	}
	phases(s.world, a, block(2, s.addrs[2], wire.WrapTx{Tx: tx}))
}

// C21_Contract: spends from a contract next to other transactions.
func C21_Contract() {
	kind := 1 + sym.Choose("kind", 2)
	s := newScene(kind)
	a := s.store()
	spend := wire.WrapTx{Tx: s.spend(kind, []int{0, 2}[sym.Choose("to", 2)], sym.U64("value"), sym.U64("fee"))}
	other := s.transfer(0, 0, 1)
	b := block(2, s.addrs[[]int{0, 2}[sym.Choose("miner", deep(1, 2))]], spend, other)
	if sym.Choose("order", 2) == 1 {
		b.Body.Txs[0], b.Body.Txs[1] = other, spend
	}
	if sym.Choose("listed", 2) == 1 {
		b.Body.Pruned = []wire.AccountPruned{s.emptied()}
	}
	phases(s.world, a, b)
}

// C21_Create: creations next to transfers, and at the sender's or miner's address.
func C21_Create() {
	s := newScene(1)
	a := s.store()
	kind := uint8(1 + sym.Choose("kind", 2))
	to := []int{0, 1, s.fresh}[sym.Choose("to", 3)]
	create := s.creation(kind, 0, to)
	other := s.transfer(1, 1, []int{0, s.fresh}[sym.Choose("credit", 2)])
	b := block(2, s.addrs[[]int{s.fresh, 2}[sym.Choose("miner", deep(1, 2))]], wire.WrapTx{Tx: create}, other)
	if sym.Choose("order", 2) == 1 {
		b.Body.Txs[0], b.Body.Txs[1] = b.Body.Txs[1], b.Body.Txs[0]
	}
	phases(s.world, a, b)
}

// C21_Blocks: blocks in a row.
func C21_Blocks() {
	w := keyWorld(2, 1)
	w.basic("balance", 0)
	a := w.store()
	for h := uint32(1); h <= 2; h++ {
		from := sym.Choose("from", 2)
		w = phases(w, a, block(h, w.addrs[2], w.transfer(int(h)%2, from, 1-from)))
	}
}

// C21_Empty: a block without transactions pays the reward alone.
func C21_Empty() {
	s := newScene(1 + sym.Choose("kind", 2))
	a := s.store()
	h := []uint32{1, 2, 3, 10, 100, 5000, 5001}[sym.Choose("height", deep(5, 7))]
	phases(s.world, a, block(h, s.addrs[sym.Choose("miner", 5)]))
}
