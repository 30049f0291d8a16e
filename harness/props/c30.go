package props

import (
	"crypto/ed25519"

	"golang.org/x/crypto/blake2b"
	"terorie.dev/nimiq/beserial"
	"terorie.dev/nimiq/genesis"
	"terorie.dev/nimiq/wallet"
	"terorie.dev/nimiq/wire"
	"verif/harness/sym"
)

// ---- C30 ----

// newWallet derives a wallet; its key is rebuilt independently.
func newWallet(name string) (*wallet.Basic, ed25519.PrivateKey) {
	seed := sym.Bytes(name, 32)
	b := wallet.DeriveBasic(dup(seed))
	key := ed25519.NewKeyFromSeed(seed)
	switch sym.Choose("made", 3) {
	case 1:
		b = &wallet.Basic{PrivateKey: append(ed25519.PrivateKey(nil), key...), PublicKey: append(ed25519.PublicKey(nil), key[32:]...)}
	case 2:
		b.GetAddress() // asked for before
	}
	return b, key
}

func addressOf(pub []byte) (a [20]byte) {
	h := blake2b.Sum256(pub)
	copy(a[:], h[:])
	return
}

// keeps checks that the wallet is the one for the key.
func keeps(b *wallet.Basic, key ed25519.PrivateKey) {
	sym.Assert(sym.And(sym.EqBytes(b.PrivateKey, key), sym.EqBytes(b.PublicKey, key[32:])), "the wallet keeps its keys")
	pub := b.GetPublicKey()
	sym.Assert(sym.EqBytes(pub[:], key[32:]), "the public key is the wallet's")
	sym.Assert(b.GetAddress() == addressOf(key[32:]), "the address is derived from the public key")
}

// refContent is what a transaction says, independent of its own views.
func refContent(tx wire.Tx) wire.TxContent {
	switch t := tx.(type) {
	case *wire.BasicTx:
		return wire.TxContent{
			Sender: addressOf(t.SenderPubKey[:]), Recipient: t.Recipient, Value: t.Value, Fee: t.Fee,
			ValidityStartHeight: t.ValidityStartHeight, NetworkID: t.NetworkID,
		}
	case *wire.ExtendedTx:
		return wire.TxContent{
			Data: t.Data, Sender: t.Sender, SenderType: t.SenderType, Recipient: t.Recipient, RecipientType: t.RecipientType,
			Value: t.Value, Fee: t.Fee, ValidityStartHeight: t.ValidityStartHeight, NetworkID: t.NetworkID, Flags: t.Flags,
		}
	}
	panic("unknown transaction")
}

func signingBytes(tx wire.Tx) []byte { return rContent(0).enc(nil, refContent(tx)) }

// C30_Basic signs a basic transaction.
func C30_Basic() {
	b, key := newWallet("seed")
	tx := rBasicTx().gen("tx")
	copy(tx.SenderPubKey[:], key[32:])
	old := tx
	var err error
	sym.NoPanic("signing does not panic", func() { err = b.SignBasicTx(&tx) })
	sym.Assert(err == nil, "signs its own transactions")
	sym.Assert(ed25519.Verify(ed25519.PublicKey(key[32:]), signingBytes(&old), tx.Signature[:]), "verifies over the content")
	sym.Assert(sym.EqBytes(tx.Signature[:], ed25519.Sign(key, signingBytes(&old))), "is the key's signature over the content")
	old.Signature = tx.Signature
	sym.Assert(rBasicTx().eq(tx, old), "signing changes nothing else")
	keeps(b, key)
	sym.ObserveBytes("sig", tx.Signature[:])
}

// C30_Foreign: transactions of other senders are refused.
func C30_Foreign() {
	b, key := newWallet("seed")
	tx := rBasicTx().gen("tx")
	switch sym.Choose("near", 4) {
	case 1: // one byte differs
		i := sym.Choose("i", 32)
		x := tx.SenderPubKey[i]
		copy(tx.SenderPubKey[:], key[32:])
		tx.SenderPubKey[i] = x
	case 2:
		tx.SenderPubKey = [32]byte{}
	case 3: // another wallet's
		copy(tx.SenderPubKey[:], ed25519.NewKeyFromSeed(sym.Bytes("other", 32))[32:])
	}
	sym.Assume(!sym.EqBytes(tx.SenderPubKey[:], key[32:]))
	old := tx
	var err error
	sym.NoPanic("signing does not panic", func() { err = b.SignBasicTx(&tx) })
	sym.Assert(err != nil, "refuses a sender key that is not its own")
	sym.Assert(rBasicTx().eq(tx, old), "and leaves the transaction unmodified")
	keeps(b, key)
}

// C30_Change: no content field can change under a basic transaction's signature.
func C30_Change() {
	b, key := newWallet("seed")
	tx := rBasicTx().gen("tx")
	copy(tx.SenderPubKey[:], key[32:])
	sym.Assert(b.SignBasicTx(&tx) == nil, "signs its own transactions")
	o := tx
	switch sym.Choose("field", 6) {
	case 0:
		sym.Fill("recipient", o.Recipient[:])
		sym.Assume(o.Recipient != tx.Recipient)
	case 1:
		o.Value = sym.U64("value")
		sym.Assume(o.Value != tx.Value)
	case 2:
		o.Fee = sym.U64("fee")
		sym.Assume(o.Fee != tx.Fee)
	case 3:
		o.ValidityStartHeight = sym.U32("height")
		sym.Assume(o.ValidityStartHeight != tx.ValidityStartHeight)
	case 4:
		o.NetworkID = sym.U8("network")
		sym.Assume(o.NetworkID != tx.NetworkID)
	case 5:
		sym.Fill("sender", o.SenderPubKey[:])
		sym.Assume(o.SenderPubKey != tx.SenderPubKey)
	}
	verifies(&o, key, o.Signature[:], false)
}

// verifies checks the signature over the library's own signing content.
func verifies(tx wire.Tx, key ed25519.PrivateKey, sig []byte, want bool) {
	content := tx.AsTxContent()
	buf, err := beserial.Marshal(nil, &content)
	sym.Assert(err == nil, "the content encodes")
	sym.Assert(ed25519.Verify(ed25519.PublicKey(key[32:]), buf, sig) == want, "verifies exactly for the signed content")
	sym.Assert(sym.EqBytes(buf, signingBytes(tx)), "the signing content has all fields")
}

// extTx is any extended transaction with n bytes of data and a stale proof.
func extTx(name string, n int) wire.ExtendedTx {
	tx := rExtTx(0).gen(name)
	tx.Data = sym.Bytes("data", n)
	tx.Proof = sym.Bytes("proof", []int{0, 97}[sym.Choose("proof", 2)])
	return tx
}

// C30_Extended signs an extended transaction.
func C30_Extended() {
	b, key := newWallet("seed")
	tx := extTx("tx", []int{0, 1, 24, 78}[sym.Choose("data", 4)])
	old := tx
	old.Data, old.Proof = dup(tx.Data), dup(tx.Proof)
	var err error
	sym.NoPanic("signing does not panic", func() { err = b.SignExtendedTx(&tx) })
	sym.Assert(err == nil, "signs")
	p, rest, ok := rProof(0).dec(tx.Proof)
	sym.Assert(ok && len(rest) == 0, "the proof is a signature proof")
	sym.Assert(sym.EqBytes(p.PublicKey[:], key[32:]), "with the wallet's public key")
	sym.Assert(refSigner(&p) == addressOf(key[32:]), "the signer is the wallet's address")
	sym.Assert(ed25519.Verify(ed25519.PublicKey(key[32:]), signingBytes(&old), p.Signature[:]), "verifies over the content")
	old.Proof = tx.Proof
	sym.Assert(rExtTx(0).eq(tx, old), "signing changes nothing else")
	keeps(b, key)
	sym.ObserveBytes("proof", tx.Proof)
}

// C30_ChangeExtended: no content field can change under an extended transaction's signature.
func C30_ChangeExtended() {
	b, key := newWallet("seed")
	tx := extTx("tx", []int{0, 2}[sym.Choose("data", 2)])
	sym.Assert(b.SignExtendedTx(&tx) == nil, "signs")
	o := tx
	switch sym.Choose("field", 10) {
	case 0:
		o.Data = sym.Bytes("other data", sym.Choose("len", 4))
		sym.Assume(!(len(o.Data) == len(tx.Data) && sym.EqBytes(o.Data, tx.Data)))
	case 1:
		sym.Fill("sender", o.Sender[:])
		sym.Assume(o.Sender != tx.Sender)
	case 2:
		o.SenderType = sym.U8("type")
		sym.Assume(o.SenderType != tx.SenderType)
	case 3:
		sym.Fill("recipient", o.Recipient[:])
		sym.Assume(o.Recipient != tx.Recipient)
	case 4:
		o.RecipientType = sym.U8("type")
		sym.Assume(o.RecipientType != tx.RecipientType)
	case 5:
		o.Value = sym.U64("value")
		sym.Assume(o.Value != tx.Value)
	case 6:
		o.Fee = sym.U64("fee")
		sym.Assume(o.Fee != tx.Fee)
	case 7:
		o.ValidityStartHeight = sym.U32("height")
		sym.Assume(o.ValidityStartHeight != tx.ValidityStartHeight)
	case 8:
		o.NetworkID = sym.U8("network")
		sym.Assume(o.NetworkID != tx.NetworkID)
	case 9:
		o.Flags = sym.U8("flags")
		sym.Assume(o.Flags != tx.Flags)
	}
	p, _, ok := rProof(0).dec(o.Proof)
	sym.Assert(ok, "the proof is a signature proof")
	verifies(&o, key, p.Signature[:], false)
	verifies(&tx, key, p.Signature[:], true)
}

// C30_TooLong: data that cannot be encoded is not signed.
func C30_TooLong() {
	b, _ := newWallet("seed")
	tx := extTx("tx", 0)
	tx.Data = make([]byte, 65536)
	tx.Data[65535] = sym.U8("last")
	old := dup(tx.Proof)
	var err error
	sym.NoPanic("signing does not panic", func() { err = b.SignExtendedTx(&tx) })
	sym.Assert(err != nil, "content that cannot be encoded is not signed")
	sym.Assert(len(tx.Proof) == len(old) && sym.EqBytes(tx.Proof, old), "and the proof stays")
}

// C30_Repeat: one wallet signs several transactions.
func C30_Repeat() {
	b, key := newWallet("seed")
	for i := 0; i < deep(2, 3); i++ {
		if sym.Choose("format", 2) == 0 {
			tx := rBasicTx().gen("tx")
			copy(tx.SenderPubKey[:], key[32:])
			sym.Assert(b.SignBasicTx(&tx) == nil, "signs its own transactions")
			verifies(&tx, key, tx.Signature[:], true)
		} else {
			tx := extTx("tx", 1)
			sym.Assert(b.SignExtendedTx(&tx) == nil, "signs")
			p, _, ok := rProof(0).dec(tx.Proof)
			sym.Assert(ok, "the proof is a signature proof")
			verifies(&tx, key, p.Signature[:], true)
		}
		keeps(b, key)
	}
}

// C30_Two: wallets do not affect each other.
func C30_Two() {
	b1, k1 := newWallet("seed")
	b2, k2 := newWallet("seed2")
	keeps(b1, k1)
	keeps(b2, k2)
	tx := rBasicTx().gen("tx")
	copy(tx.SenderPubKey[:], k1[32:])
	sym.Assume(!sym.EqBytes(k1[32:], k2[32:]))
	sym.Assert(b2.SignBasicTx(&tx) != nil, "the other wallet refuses")
	sym.Assert(b1.SignBasicTx(&tx) == nil, "its own wallet signs")
	content := tx.AsTxContent()
	buf, err := beserial.Marshal(nil, &content)
	sym.Assert(err == nil, "the content encodes")
	sym.Assert(!ed25519.Verify(ed25519.PublicKey(k2[32:]), buf, tx.Signature[:]), "does not verify under the other key")
	keeps(b1, k1)
	keeps(b2, k2)
}

// C30_Generated wallets are as good as derived ones.
func C30_Generated() {
	var b *wallet.Basic
	sym.NoPanic("generating does not panic", func() { b = wallet.GenerateBasic() })
	pub := b.GetPublicKey()
	sym.Assert(sym.EqBytes(b.PublicKey, pub[:]), "has a public key")
	sym.Assert(b.GetAddress() == addressOf(pub[:]), "the address is derived from the public key")
	tx := rBasicTx().gen("tx")
	tx.SenderPubKey = pub
	sym.Assert(b.SignBasicTx(&tx) == nil, "signs its own transactions")
	sym.Assert(ed25519.Verify(ed25519.PublicKey(pub[:]), signingBytes(&tx), tx.Signature[:]), "verifies over the content")
	sym.Assert(b.GetAddress() == addressOf(pub[:]), "the address stays")
}

// ---- C31 ----

func sameContent(a, b wire.TxContent) bool { return rContent(0).eq(a, b) }

// C31_Basic compares all views of a basic transaction.
func C31_Basic() {
	tx := rBasicTx().gen("tx")
	old := tx
	views(&tx, addressOf(tx.SenderPubKey[:]), 0, tx.Recipient, 0, tx.Value, tx.Fee)
	c := tx.AsTxContent()
	sym.Assert(len(c.Data) == 0 && c.Flags == 0, "no data and no flags")
	ext := tx.AsExtendedTx()
	sym.Assert(len(ext.Data) == 0 && ext.Flags == 0, "no data and no flags in the extended form")
	p, rest, ok := rProof(0).dec(ext.Proof)
	sym.Assert(ok && len(rest) == 0, "the extended form has a signature proof")
	sym.Assert(refSigner(&p) == addressOf(tx.SenderPubKey[:]), "that names the same signer")
	sym.Assert(p.PublicKey == tx.SenderPubKey, "with the same key")
	sym.Assert(p.Signature == tx.Signature, "and the same signature")
	sym.Assert(rBasicTx().eq(tx, old), "views leave the transaction alone")
	sym.ObserveBytes("content", rContent(0).enc(nil, c))
}

// C31_Extended compares all views of an extended transaction.
func C31_Extended() {
	tx := rExtTx(3).gen("tx")
	old := tx
	old.Data, old.Proof = dup(tx.Data), dup(tx.Proof)
	views(&tx, tx.Sender, tx.SenderType, tx.Recipient, tx.RecipientType, tx.Value, tx.Fee)
	ext := tx.AsExtendedTx()
	sym.Assert(rExtTx(0).eq(ext, old), "an extended transaction is its own extended form")
	sym.Assert(rExtTx(0).eq(tx, old), "views leave the transaction alone")
	sym.ObserveBytes("content", rContent(0).enc(nil, tx.AsTxContent()))
}

func views(tx wire.Tx, from [20]byte, ft uint8, to [20]byte, tt uint8, value, fee uint64) {
	want := refContent(tx)
	var c wire.TxContent
	var ext wire.ExtendedTx
	sym.NoPanic("views do not panic", func() { c, ext = tx.AsTxContent(), tx.AsExtendedTx() })
	sym.Assert(sameContent(c, want), "the content agrees field by field")
	v, f := tx.Amount()
	sym.Assert(sym.And(v == value, f == fee), "the amount agrees")
	s, st := tx.GetSender()
	sym.Assert(sym.And(*s == from, st == ft), "the sender agrees")
	r, rt := tx.GetRecipient()
	sym.Assert(sym.And(*r == to, rt == tt), "the recipient agrees")
	sym.Assert(sameContent(refContent(&ext), want), "the extended form says the same")
	sym.Assert(sameContent(ext.AsTxContent(), c), "and has the same signing content")
	buf, err := beserial.Marshal(nil, &c)
	sym.Assert(err == nil && sym.EqBytes(buf, rContent(0).enc(nil, want)), "the signing content encodes all ten fields")
}

// C31_Injective: different content never has the same signing bytes.
func C31_Injective() {
	a, b := rContent(deep(3, 6)).gen("a"), rContent(deep(3, 6)).gen("b")
	x, err1 := beserial.Marshal(nil, &a)
	y, err2 := beserial.Marshal(nil, &b)
	sym.Assert(err1 == nil && err2 == nil, "content encodes")
	sym.Assume(len(x) == len(y))
	sym.Assert(sym.Implies(sym.EqBytes(x, y), sameContent(a, b)), "equal signing bytes mean equal content")
}

// C31_Content round-trips the signing content.
func C31_Content() { roundTrip(rContent(deep(3, 6))) }

// C31_ContentAny decodes any bytes as signing content.
func C31_ContentAny() { sizes(rContent(0), 0, 1, 2, 66, 67, 68, 69) }

// C31_Formats: a basic transaction and its extended form are applied alike.
func C31_Formats() {
	w := keyWorld(2, 1)
	w.basic("balance", 0, 1)
	tx := rBasicTx().gen("tx")
	tx.SenderPubKey = pubOf(0)
	tx.Recipient = w.addrs[sym.Choose("to", 3)]
	ext := tx.AsExtendedTx()
	a, b := w.store(), w.store()
	e1 := push(a, block(2, w.addrs[2], wire.WrapTx{Tx: &tx}))
	e2 := push(b, block(2, w.addrs[2], wire.WrapTx{Tx: &ext}))
	sym.Assert((e1 == nil) == (e2 == nil), "both forms are accepted alike")
	sym.Assert(a.Tree.Hash() == b.Tree.Hash(), "and have the same effect")
}

// ---- C32 ----

// initialised initialises a new state and compares it with the reference.
func initialised(p *genesis.Profile, w *world) {
	list := &world{addrs: w.addrs, accs: make([]wire.Account, len(w.addrs))}
	for _, e := range p.Accounts {
		list.put(list.at(e.Address), owned(e.Account.Account))
	}
	want, ok := list.refPush(&p.Block)
	root := [32]byte{}
	if ok {
		root = refRootHash(want.entries())
	}
	if sym.Choose("hash", 2) == 0 {
		p.Block.Header.AccountsHash = root
	} else {
		sym.Fill("hash", p.Block.Header.AccountsHash[:])
	}
	header := p.Block.Header
	a := newState()
	var err error
	sym.NoPanic("initialising does not panic", func() { err = p.InitAccounts(a) })
	match := sym.And(ok, header.AccountsHash == root)
	sym.Assert((err == nil) == match, "succeeds exactly when the block applies and the root hash matches")
	if err == nil {
		sym.Reach("initialised")
		sym.Assert(want.matches(a), "every account is as listed, with the genesis block applied")
		sym.Assert(a.Tree.Hash() == root, "and there are no others")
	}
	sym.Assert(p.Block.Header == header, "the profile is left alone")
}

// listed makes a genesis account.
func listed(addr [20]byte, acc wire.Account) genesis.Account {
	return genesis.Account{Address: addr, Account: wire.WrapAccount{Account: acc}}
}

// C32_Accounts lists any accounts.
func C32_Accounts() {
	w := keyWorld(3, 2)
	p := &genesis.Profile{}
	for i := sym.Choose("accounts", deep(3, 4)); i > 0; i-- {
		p.Accounts = append(p.Accounts, listed(w.addrs[[]int{0, 3, 1}[i-1]], anyAccount("account")))
	}
	p.Block = *block(1, w.addrs[2+2*sym.Choose("miner", 2)])
	initialised(p, w)
}

// C32_Twice lists an address twice.
func C32_Twice() {
	w := keyWorld(2, 1)
	p := &genesis.Profile{}
	for i := 0; i < deep(2, 3); i++ {
		p.Accounts = append(p.Accounts, listed(w.addrs[0], anyAccount("account")))
	}
	p.Accounts = append(p.Accounts, listed(w.addrs[2], &wire.BasicAccount{Value: sym.U64("balance")}))
	p.Block = *block(1, w.addrs[sym.Choose("miner", 2)])
	initialised(p, w)
}

// C32_Block has a genesis block with a transaction, at any small height or broken.
func C32_Block() {
	w := keyWorld(3, 1)
	p := &genesis.Profile{Accounts: []genesis.Account{
		listed(w.addrs[0], &wire.BasicAccount{Value: sym.U64("balance")}),
		listed(w.addrs[1], &wire.BasicAccount{Value: sym.U64("balance")}),
	}}
	switch sym.Choose("block", 3) {
	case 0:
		p.Block = *block(uint32(sym.Choose("height", 3)), w.addrs[sym.Choose("miner", 3)])
		if sym.Choose("body", 2) == 0 {
			p.Block.Body = nil
		}
	case 1:
		p.Block = *block(1, w.addrs[sym.Choose("miner", 3)])
		p.Block.Body.Txs = []wire.WrapTx{w.transfer(sym.Choose("format", 2), 0, 1+sym.Choose("to", 3))}
	case 2:
		p.Block = *block(1, w.addrs[2])
		p.Block.Body.Pruned = []wire.AccountPruned{{Address: w.addrs[1], Account: wire.WrapAccount{Account: &wire.BasicAccount{}}}}
	}
	initialised(p, w)
}

// C32_Contract: the genesis block pays into and out of listed contracts.
func C32_Contract() {
	kind := 1 + sym.Choose("kind", 2)
	s := newScene(kind)
	p := &genesis.Profile{}
	for i, acc := range s.accs {
		if acc != nil {
			p.Accounts = append(p.Accounts, listed(s.addrs[i], owned(acc)))
		}
	}
	var tx wire.Tx
	switch sym.Choose("tx", 2) {
	case 0:
		tx = s.spend(kind, 1, sym.U64("value"), sym.U64("fee"))
	case 1:
		tx = s.creation(uint8(kind), 0, []int{s.fresh, 1}[sym.Choose("to", 2)])
	}
	p.Block = *block(1, s.addrs[2], wire.WrapTx{Tx: tx})
	if sym.Choose("prune", 2) == 1 {
		p.Block.Body.Pruned = []wire.AccountPruned{s.emptied()}
	}
	initialised(p, s.world)
}
