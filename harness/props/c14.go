package props

import (
	"math/bits"

	"terorie.dev/nimiq/wire"
	"verif/harness/sym"
)

// refSpend tells whether a balance covers value plus fee, and what is left.
func refSpend(balance, value, fee uint64) (left uint64, ok bool) {
	amount, carry := bits.Add64(value, fee, 0)
	return balance - amount, sym.And(carry == 0, amount <= balance)
}

// owned copies an account so that later changes to it show.
func owned(a wire.Account) wire.Account {
	switch a := a.(type) {
	case *wire.BasicAccount:
		c := *a
		return &c
	case *wire.VestingAccount:
		c := *a
		return &c
	case *wire.HTLCAccount:
		c := *a
		return &c
	}
	panic("unknown account")
}

func sameAcc(a, b wire.Account) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return rAcc().eq(wire.WrapAccount{Account: a}, wire.WrapAccount{Account: b})
}

func sameTx(a, b wire.Tx) bool { return rTx(0).eq(wire.WrapTx{Tx: a}, wire.WrapTx{Tx: b}) }

func ownedTx(t wire.Tx) wire.Tx {
	switch t := t.(type) {
	case *wire.BasicTx:
		c := *t
		return &c
	case *wire.ExtendedTx:
		c := *t
		c.Data, c.Proof = dup(t.Data), dup(t.Proof)
		return &c
	}
	panic("unknown transaction")
}

// applied calls one of the two Apply methods, which must not panic nor modify anything.
func applied(acc wire.Account, tx wire.Tx, height uint32, out bool) (res wire.Account, err error) {
	acc0, tx0 := owned(acc), ownedTx(tx)
	sym.NoPanic("no panic", func() {
		if out {
			res, err = acc.ApplyOutgoingTx(tx, height)
		} else {
			res, err = acc.ApplyIncomingTx(tx, height)
		}
	})
	sym.Assert(sameAcc(acc, acc0), "the account passed in is not modified")
	sym.Assert(sameTx(tx, tx0), "the transaction is not modified")
	if err == nil {
		sym.Assert(res != nil, "success comes with an account")
		sym.Assert(res != acc, "a new account is returned")
	}
	return
}

func C14_Out() {
	acc := &wire.BasicAccount{Value: sym.U64("balance")}
	tx := rTx(deep(1, 3)).gen("tx").Tx
	value, fee := tx.Amount()
	left, ok := refSpend(acc.Value, value, fee)
	res, err := applied(acc, tx, sym.U32("height"), true)
	sym.Assert((err == nil) == ok, "succeeds exactly when the balance covers value plus fee")
	if err == nil {
		sym.Assert(sameAcc(res, &wire.BasicAccount{Value: left}), "leaves exactly the difference")
		sym.Assert(res.Balance() == left && res.IsEmpty() == (left == 0), "balance and emptiness agree")
		sym.Reach("spent")
	}
}

func C14_In() {
	acc := &wire.BasicAccount{Value: sym.U64("balance")}
	tx := rTx(deep(1, 3)).gen("tx").Tx
	value, _ := tx.Amount()
	sum, carry := bits.Add64(acc.Value, value, 0)
	res, err := applied(acc, tx, sym.U32("height"), false)
	sym.Assert((err == nil) == (carry == 0), "succeeds exactly when the sum is representable")
	if err == nil {
		sym.Assert(sameAcc(res, &wire.BasicAccount{Value: sum}), "adds exactly the value")
	}
}

// C14_Chain spends and receives in a row.
func C14_Chain() {
	var acc wire.Account = &wire.BasicAccount{Value: sym.U64("balance")}
	bal := acc.Balance()
	for i := 0; i < deep(3, 4); i++ {
		tx := rBasicTx().gen("tx")
		var err error
		ok := false
		out := sym.Bool("out")
		var next uint64
		if out {
			next, ok = refSpend(bal, tx.Value, tx.Fee)
		} else {
			var carry uint64
			next, carry = bits.Add64(bal, tx.Value, 0)
			ok = carry == 0
		}
		res, err := applied(acc, &tx, sym.U32("height"), out)
		sym.Assert((err == nil) == ok, "as the running balance allows")
		if err != nil {
			continue
		}
		acc, bal = res, next
		sym.Assert(acc.Balance() == bal, "the running balance")
	}
}

// ---- C15 ----

// refLocked is the amount still locked.
func refLocked(c *wire.VestingAccount, height uint32) uint64 {
	if c.VestingStepBlocks == 0 || c.VestingStepAmount == 0 {
		return 0
	}
	if height <= c.VestingStart {
		return c.VestingTotalAmount
	}
	steps := (height - c.VestingStart) / c.VestingStepBlocks
	hi, unlocked := bits.Mul64(uint64(steps), c.VestingStepAmount)
	return sym.Ite(sym.Or(hi != 0, unlocked >= c.VestingTotalAmount), 0, c.VestingTotalAmount-unlocked)
}

// near is an address that differs from a in any way, or not at all.
func near(name string, a [20]byte) [20]byte {
	var d [20]byte
	sym.Fill(name, d[:])
	for i := range d {
		d[i] ^= a[i]
	}
	return d
}

// okProof is a proof without a path.
func okProof(name string) (raw []byte, signer [20]byte) {
	raw = make([]byte, 97)
	sym.Fill(name, raw[:32])
	sym.Fill(name+".sig", raw[33:])
	var pub [32]byte
	copy(pub[:], raw)
	return raw, wire.PublicKeyToAddress(&pub)
}

func vestingSpend(c *wire.VestingAccount, tx *wire.ExtendedTx, height uint32, signed bool) {
	left, ok := refSpend(c.Value, tx.Value, tx.Fee)
	ok = sym.And(ok, left >= refLocked(c, height), signed)
	res, err := applied(c, tx, height, true)
	sym.Assert((err == nil) == ok, "a spend passes exactly when the owner signed and enough stays locked")
	if err == nil {
		want := *c
		want.Value = left
		sym.Assert(sameAcc(res, &want), "the balance goes down by value plus fee and nothing else changes")
		sym.Reach("spent")
	}
}

// C15_Schedule: any schedule, spent by the owner.
func C15_Schedule() {
	c := rVesting().gen("c")
	var tx wire.ExtendedTx
	tx.Value, tx.Fee = sym.U64("value"), sym.U64("fee")
	tx.Proof, c.Owner = okProof("proof")
	vestingSpend(&c, &tx, sym.U32("height"), true)
}

// C15_Steps: schedules with particular steps.
func C15_Steps() {
	c := rVesting().gen("c")
	c.VestingStepBlocks = []uint32{0, 1, 7, 1 << 31, 2, 3, 10, 1 << 16, 1<<32 - 1}[sym.Choose("blocks", deep(4, 9))]
	c.VestingStepAmount = []uint64{0, 5, 1<<63 + 1, 1, 1 << 32, 1<<64 - 1}[sym.Choose("amount", deep(3, 6))]
	var tx wire.ExtendedTx
	tx.Value, tx.Fee = sym.U64("value"), sym.U64("fee")
	tx.Proof, c.Owner = okProof("proof")
	vestingSpend(&c, &tx, sym.U32("height"), true)
}

// C15_Small: few steps, where whole schedules can be solved quickly.
func C15_Small() {
	c := rVesting().gen("c")
	c.VestingStart = uint32([]int{5, 0, 1, 23}[sym.Choose("start", deep(1, 4))])
	c.VestingStepBlocks = uint32(sym.Choose("blocks", deep(5, 9)))
	c.VestingStepAmount &= 255
	c.VestingTotalAmount &= 1023
	var tx wire.ExtendedTx
	tx.Value, tx.Fee = sym.U64("value"), sym.U64("fee")
	tx.Proof, c.Owner = okProof("proof")
	vestingSpend(&c, &tx, uint32(sym.Choose("height", deep(14, 48))), true)
}

// C15_Edge: around the step that releases the next part.
func C15_Edge() {
	c := rVesting().gen("c")
	k := sym.Choose("k", deep(3, 5))
	d := sym.Choose("d", 3) // just before, at, just after
	blocks := []uint32{1, 3, 1000}[sym.Choose("blocks", 3)]
	c.VestingStepBlocks = blocks
	off := uint32(k)*blocks + uint32(d) - 1
	c.VestingStart = []uint32{1, 1000, 1<<32 - 5000}[sym.Choose("start", deep(2, 3))]
	height := c.VestingStart + off
	var tx wire.ExtendedTx
	tx.Value, tx.Fee = sym.U64("value"), sym.U64("fee")
	tx.Proof, c.Owner = okProof("proof")
	vestingSpend(&c, &tx, height, true)
}

// C15_Proof: any proof bytes and any owner.
func C15_Proof() {
	c := rVesting().gen("c")
	if sym.Choose("none locked", 2) == 0 {
		c.VestingStepAmount = 0
	} else {
		c.VestingStepBlocks = 0
	}
	tx := rExtTx(0).gen("tx")
	n := []int{0, 1, 31, 32, 33, 96, 97, 98, 128, 129, 130, 131, 162, 163}[sym.Choose("len", deep(12, 14))]
	tx.Proof = sym.Bytes("proof", n)
	p, rest, ok := rProof(0).dec(tx.Proof)
	signed := false
	if ok && len(rest) == 0 {
		s := refSigner(&p)
		c.Owner = near("owner", s)
		signed = c.Owner == s
	}
	vestingSpend(&c, &tx, sym.U32("height"), signed)
}

func C15_Basic() {
	c := rVesting().gen("c")
	tx := rBasicTx().gen("tx")
	c.Owner = near("owner", wire.PublicKeyToAddress(&tx.SenderPubKey))
	_, err := applied(&c, &tx, sym.U32("height"), true)
	sym.Assert(err != nil, "a transaction without proof spends nothing")
}

func C15_In() {
	c := rVesting().gen("c")
	tx := rTx(1).gen("tx").Tx
	_, err := applied(&c, tx, sym.U32("height"), false)
	sym.Assert(err != nil, "incoming funds are refused")
}

func C15_View() {
	c := rVesting().gen("c")
	sym.Assert(c.Balance() == c.Value && c.IsEmpty() == (c.Value == 0) && c.Type() == 1, "balance, emptiness and kind")
}

// ---- C16 ----

// htlcProof decodes the proof of a contract spend: who signed, and what for.
type htlcProof struct {
	kind    uint8 // 0: malformed
	alg     uint8
	root    [32]byte
	a, b    [20]byte
	signers int
}

func decHTLC(buf []byte) (h htlcProof) {
	if len(buf) == 0 {
		return
	}
	kind, buf := buf[0], buf[1:]
	proof := func() ([20]byte, bool) {
		p, rest, ok := rProof(0).dec(buf)
		if !ok {
			return [20]byte{}, false
		}
		buf = rest
		return refSigner(&p), true
	}
	var ok bool
	switch kind {
	case 1:
		if len(buf) < 66 {
			return
		}
		h.alg = buf[0]
		copy(h.root[:], buf[2:34])
		buf = buf[66:]
		if h.a, ok = proof(); !ok || len(buf) != 0 {
			return
		}
		h.signers = 1
	case 2:
		if h.a, ok = proof(); !ok {
			return
		}
		if h.b, ok = proof(); !ok || len(buf) != 0 {
			return
		}
		h.signers = 2
	case 3:
		if h.a, ok = proof(); !ok || len(buf) != 0 {
			return
		}
		h.signers = 1
	default:
		return
	}
	h.kind = kind
	return
}

// entitled tells whether the proof lets the contract pay at the given height.
func (p *htlcProof) entitled(h *wire.HTLCAccount, height uint32) bool {
	switch p.kind {
	case 1:
		return sym.And(height <= h.Timeout, p.alg == h.Hash.Algorithm, p.root == h.Hash.Bytes, p.a == h.Recipient)
	case 2:
		return sym.And(p.a == h.Recipient, p.b == h.Sender)
	case 3:
		return sym.And(height > h.Timeout, p.a == h.Sender)
	}
	return false
}

func htlcSpend(h *wire.HTLCAccount, tx *wire.ExtendedTx) {
	p := decHTLC(tx.Proof)
	// Any parties, including exactly the signers.
	switch p.kind {
	case 1:
		h.Recipient = near("recipient", p.a)
		if sym.Choose("swap", 2) == 1 {
			h.Sender = p.a
		}
	case 2:
		h.Recipient, h.Sender = near("recipient", p.a), near("sender", p.b)
		if sym.Choose("swap", 2) == 1 {
			h.Recipient, h.Sender = near("recipient", p.b), near("sender", p.a)
		}
	case 3:
		h.Sender = near("sender", p.a)
		if sym.Choose("swap", 2) == 1 {
			h.Recipient = p.a
		}
	}
	height := sym.U32("height")
	left, ok := refSpend(h.Value, tx.Value, tx.Fee)
	ok = sym.And(ok, p.entitled(h, height))
	res, err := applied(h, tx, height, true)
	sym.Assert((err == nil) == ok, "a spend passes exactly when the entitled party proves it in its phase")
	if err == nil {
		want := *h
		want.Value = left
		sym.Assert(sameAcc(res, &want), "the balance goes down by value plus fee and nothing else changes")
		sym.Reach("spent")
	}
}

// C16_Proof: any proof bytes.
func C16_Proof() {
	h := rHTLC().gen("h")
	tx := rExtTx(0).gen("tx")
	ns := []int{0, 1, 2, 66, 67, 68, 97, 98, 99, 130, 131, 132, 163, 164, 165, 194, 195, 196}
	tx.Proof = sym.Bytes("proof", ns[sym.Choose("len", len(ns))])
	htlcSpend(&h, &tx)
}

// C16_Long: proofs with Merkle paths.
func C16_Long() {
	h := rHTLC().gen("h")
	tx := rExtTx(0).gen("tx")
	ns := []int{197, 228, 229, 198, 227, 230, 260, 261}
	tx.Proof = sym.Bytes("proof", ns[sym.Choose("len", deep(3, 8))])
	sym.Assume(tx.Proof[0] < 4)
	htlcSpend(&h, &tx)
}

// C16_Same: both parties are the same.
func C16_Same() {
	h := rHTLC().gen("h")
	tx := rExtTx(0).gen("tx")
	raw, who := okProof("p")
	raw2, who2 := okProof("q")
	h.Sender, h.Recipient = who, who
	switch sym.Choose("kind", 3) {
	case 0:
		tx.Proof = append(append([]byte{1}, sym.Bytes("hash", 66)...), raw...)
	case 1:
		tx.Proof = append(append([]byte{2}, raw...), raw2...)
		h.Sender = near("sender", who2)
	case 2:
		tx.Proof = append([]byte{3}, raw...)
	}
	p := decHTLC(tx.Proof)
	height := sym.U32("height")
	left, ok := refSpend(h.Value, tx.Value, tx.Fee)
	ok = sym.And(ok, p.entitled(&h, height))
	res, err := applied(&h, &tx, height, true)
	sym.Assert((err == nil) == ok, "the phases hold for a contract with oneself, too")
	if err == nil {
		want := h
		want.Value = left
		sym.Assert(sameAcc(res, &want), "only the balance changes")
	}
}

func C16_Basic() {
	h := rHTLC().gen("h")
	tx := rBasicTx().gen("tx")
	me := wire.PublicKeyToAddress(&tx.SenderPubKey)
	h.Sender, h.Recipient = near("sender", me), near("recipient", me)
	_, err := applied(&h, &tx, sym.U32("height"), true)
	sym.Assert(err != nil, "a transaction without proof spends nothing")
}

func C16_In() {
	h := rHTLC().gen("h")
	tx := rTx(1).gen("tx").Tx
	_, err := applied(&h, tx, sym.U32("height"), false)
	sym.Assert(err != nil, "incoming funds are refused")
}

func C16_View() {
	h := rHTLC().gen("h")
	sym.Assert(h.Balance() == h.Value && h.IsEmpty() == (h.Value == 0) && h.Type() == 2, "balance, emptiness and kind")
}

// ---- C17 ----

// refCreate is the contract that creation data stands for.
func refCreate(kind int, data []byte, value, balance uint64) (wire.Account, bool) {
	u32 := func(i int) (v uint32) {
		for _, x := range data[i : i+4] {
			v = v<<8 | uint32(x)
		}
		return
	}
	u64 := func(i int) uint64 { return uint64(u32(i))<<32 | uint64(u32(i+4)) }
	if kind == 1 {
		c := &wire.VestingAccount{Value: balance, VestingStepAmount: value, VestingTotalAmount: value}
		if n := len(data); n != 24 && n != 36 && n != 44 {
			return nil, false
		}
		copy(c.Owner[:], data)
		if len(data) == 24 {
			c.VestingStepBlocks = u32(20)
			return c, true
		}
		c.VestingStart, c.VestingStepBlocks, c.VestingStepAmount = u32(20), u32(24), u64(28)
		if len(data) == 44 {
			c.VestingTotalAmount = u64(36)
		}
		return c, true
	}
	if len(data) != 78 || data[73] == 0 {
		return nil, false
	}
	h := &wire.HTLCAccount{Value: balance, TotalAmount: value, HashCount: data[73], Timeout: u32(74)}
	copy(h.Sender[:], data)
	copy(h.Recipient[:], data[20:])
	h.Hash.Algorithm = data[40]
	copy(h.Hash.Bytes[:], data[41:])
	return h, true
}

func initialise(kind int, tx wire.Tx, balance uint64) (acc wire.Account, err error) {
	acc = new(wire.VestingAccount)
	if kind == 2 {
		acc = new(wire.HTLCAccount)
	}
	tx0 := ownedTx(tx)
	height := sym.U32("height")
	sym.NoPanic("no panic", func() { err = acc.Init(tx, height, balance) })
	sym.Assert(sameTx(tx, tx0), "the transaction is not modified")
	return
}

func create(kind, n int) {
	tx := rExtTx(0).gen("tx")
	tx.Data = sym.Bytes("data", n)
	balance := sym.U64("balance")
	want, ok := refCreate(kind, tx.Data, tx.Value, balance)
	acc, err := initialise(kind, &tx, balance)
	sym.Assert((err == nil) == ok, "created exactly from documented data")
	if err == nil {
		sym.Assert(sameAcc(acc, want), "every field holds the documented piece")
		sym.Reach("created")
	}
}

func C17_Data() { create(1+sym.Choose("kind", 2), sym.Choose("len", deep(90, 200))) }

func C17_Long() {
	create(1+sym.Choose("kind", 2), []int{100, 128, 255, 256, 300, 24 + 256, 78 + 256}[sym.Choose("len", 7)])
}

func C17_Basic() {
	tx := rBasicTx().gen("tx")
	_, err := initialise(1+sym.Choose("kind", 2), &tx, sym.U64("balance"))
	sym.Assert(err != nil, "no contract without creation data")
}

func C17_BasicAccount() {
	var acc wire.BasicAccount
	tx := rTx(1).gen("tx").Tx
	var err error
	sym.NoPanic("no panic", func() { err = acc.Init(tx, sym.U32("height"), sym.U64("balance")) })
	sym.Assert(err != nil, "basic accounts are not created by transactions")
}
