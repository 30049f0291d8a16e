package props

import (
	"bytes"
	"crypto/ed25519"
	"math/big"
	"sync"

	"terorie.dev/nimiq/accounts"
	"terorie.dev/nimiq/address"
	"terorie.dev/nimiq/beserial"
	"terorie.dev/nimiq/genesis"
	"terorie.dev/nimiq/policy"
	"terorie.dev/nimiq/tree"
	"terorie.dev/nimiq/wallet"
	"terorie.dev/nimiq/wire"
	"verif/harness/sym"
)

// ---- C35: separate values from separate goroutines ----

// A job uses the library on values of its own and returns what it got. It makes
// them anew each time.
type job func() []byte

// together runs jobs on goroutines of their own, and then again one by one.
func together(js ...job) {
	got := make([][]byte, len(js))
	bad := make([]bool, len(js))
	var wg sync.WaitGroup
	for i := range js {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			defer func() { bad[i] = recover() != nil }()
			got[i] = js[i]()
		}(i)
	}
	wg.Wait()
	for i, j := range js {
		sym.Assert(!bad[i], "concurrent calls do not panic")
		sym.Assert(sym.EqBytes(got[i], j()), "concurrent calls give what they give alone")
	}
	sym.Reach("joined")
}

func flag(b []byte, ok bool) []byte {
	if ok {
		return append(b, 1)
	}
	return append(b, 0)
}

func number(b []byte, v uint64) []byte { return rU64().enc(b, v) }

// codec encodes, sizes and decodes a value.
func codec[T any](r R[T], n string) job {
	in := r.enc(nil, r.gen(n))
	return func() []byte {
		var v, w T
		used, err := beserial.Unmarshal(in, &v)
		out := flag(number(nil, uint64(used)), err == nil)
		out, err = beserial.Marshal(out, &v)
		out = flag(out, err == nil)
		size, err := beserial.Size(&v)
		out = flag(number(out, uint64(size)), err == nil)
		return flag(out, beserial.UnmarshalFull(append(dup(in), 0), &w) == nil)
	}
}

// pairOf runs one kind of job twice at once.
func pairOf(mk func(n string) job) { together(mk("a"), mk("b")) }

// C35_Values encodes and decodes.
func C35_Values() {
	ks := []func(n string) job{
		func(n string) job { return codec(rTCust(), n) },
		func(n string) job { return codec(rOptT(), n) },
		func(n string) job { return codec(rLens(1), n) },
		func(n string) job { return codec(rArr(), n) },
		func(n string) job { return codec(rTx(1), n) },
		func(n string) job { return codec(rAcc(), n) },
		func(n string) job { return codec(rMerkle(1), n) },
		func(n string) job { return codec(rPeer(1), n) },
		func(n string) job { return codec(rInterlink(2), n) },
		func(n string) job { return codec(rHash(), n) },
		func(n string) job { return codec(rContent(1), n) },
	}
	pairOf(ks[sym.Choose("kind", len(ks))])
}

// C35_Errors: values that cannot be encoded and input that cannot be decoded.
func C35_Errors() {
	type sized struct {
		S string `beserial:"len_tag=uint8"`
	}
	k := sym.Choose("kind", 4)
	pairOf(func(n string) job {
		b := sym.Bytes(n, 2)
		return func() []byte {
			var err error
			switch k {
			case 0:
				err = beserial.UnmarshalFull(b, new(bool))
			case 1:
				_, err = beserial.Marshal(nil, &sized{string(make([]byte, 255+int(b[0]&1)))})
			case 2:
				_, err = beserial.Marshal(nil, new(chan int))
			case 3:
				_, err = beserial.Unmarshal(b, new(wire.WrapTx))
			}
			return flag(nil, err == nil)
		}
	})
}

// C35_Messages: a message each, of two kinds.
func C35_Messages() {
	ks := []func(n string) wire.Message{
		func(n string) wire.Message { m := rInv(2).gen(n); return &m },
		func(n string) wire.Message { m := rPing(true).gen(n); return &m },
		func(n string) wire.Message { m := rVersion(1).gen(n); return &m },
		func(n string) wire.Message { return wire.GetHeadMessage },
		func(n string) wire.Message { return &wire.HeaderMessage{BlockHeader: rHeader().gen(n)} },
	}
	mk := func(n string, k int) job {
		m := ks[k](n)
		return func() []byte {
			b, err := wire.MarshalMessage(m)
			b = flag(b, err == nil)
			got, err := wire.UnmarshalMessage(m.Type(), b[8:len(b)-1])
			b = flag(b, err == nil)
			if err == nil {
				b2, err := wire.MarshalMessage(got)
				b = flag(append(b, b2...), err == nil)
			}
			_, err = wire.UnmarshalMessage(uint64(len(b)), nil)
			return flag(b, err == nil)
		}
	}
	k := sym.Choose("kind", len(ks))
	together(mk("a", k), mk("b", (k+sym.Choose("other", 2))%len(ks)))
}

// C35_Block: blocks.
func C35_Block() {
	pairOf(func(n string) job { return codec(rBlock(1, 0, deep(0, 1), 0), n) })
}

// C35_Addresses: texts.
func C35_Addresses() {
	pairOf(func(n string) job {
		a := addrOf(len(n))
		a[3] ^= byte(deep(1, 3)) & sym.U8(n)
		spaces := sym.Choose("spaces", 2) == 1
		return func() []byte {
			t := address.Encode(&a)
			if spaces {
				t = t[:7] + " " + t[7:]
			}
			b, err := address.Decode(t)
			out := flag(append([]byte(t), b[:]...), err == nil)
			_, err = address.Decode("NQ00" + t[4:])
			return flag(out, err == nil)
		}
	})
}

// C35_Signatures: peer addresses, proofs, wallets.
func C35_Signatures() {
	k := sym.Choose("kind", 4)
	pairOf(func(n string) job {
		seed := sym.Bytes(n, 32)
		value := sym.U64(n)
		proof := rProof(1).gen(n)
		return func() []byte {
			switch k {
			case 0:
				var p wire.PeerAddress
				p.Services = uint32(value)
				p.Sign(ed25519.NewKeyFromSeed(seed))
				id := wire.GetPeerID(p.PublicKey[:])
				return flag(append(p.Signature[:], id[:]...), p.VerifySignature())
			case 1:
				a, root := proof.SignerAddress(), proof.MerklePath.ComputeRoot(proof.PublicKey[:])
				return append(root[:], a[:]...)
			case 2:
				w := wallet.DeriveBasic(seed)
				tx := wire.BasicTx{Value: value, SenderPubKey: w.GetPublicKey()}
				err := w.SignBasicTx(&tx)
				a := w.GetAddress()
				return flag(append(a[:], tx.Signature[:]...), err == nil)
			default:
				w := wallet.DeriveBasic(seed)
				tx := wire.ExtendedTx{Value: value, Data: seed[:2]}
				err := w.SignExtendedTx(&tx)
				return flag(tx.Proof, err == nil)
			}
		}
	})
}

// C35_Targets: compact targets and emission.
func C35_Targets() {
	pairOf(func(n string) job {
		d := sym.Bytes(n, 2)
		sym.Assume(d[0] != 0)
		h := sym.U32(n)
		sym.Assume(sym.And(h >= 1, h <= 3))
		return func() []byte {
			var x big.Int
			x.SetBytes(append(dup(d), 0, 0, 0))
			out := number(nil, uint64(wire.TargetToCompact(x)))
			out = number(out, policy.SupplyAfter(h))
			return number(out, policy.BlockReward(h))
		}
	})
}

// C35_Trees: trees, overlays and keys.
func C35_Trees() {
	pairOf(func(n string) job {
		k := within(n, baseKey(), 39)
		v := sym.Bytes(n, 1+sym.Choose("len", 2))
		return func() []byte {
			low := tree.NewMemStore()
			t := &tree.PMTree{Store: low}
			base := baseKey()
			t.PutEntry(&base, []byte{1})
			over := &tree.OverlayStore{Lower: low}
			o := &tree.PMTree{Store: over}
			o.PutEntry(&k, v)
			h := o.Hash()
			out := append(dup(h[:]), t.GetEntry(&k)...)
			over.Flush()
			out = append(out, t.GetEntry(&k)...)
			t.PutEntry(&base, nil)
			h = t.Hash()
			return append(out, h[:]...)
		}
	})
}

// C35_Nibbles: paths.
func C35_Nibbles() {
	pairOf(func(n string) job {
		k := within(n, baseKey(), 38)
		return func() []byte {
			nbs := tree.KeyToNibbles(&k)
			back := nbs.ToKey()
			out := append(append(append([]byte(nbs), nbs.HexBytes()...), nbs[:7].Compress()...), back[:]...)
			base := baseKey()
			return append(append(out, nbs.CommonPrefix(tree.KeyToNibbles(&base))...), nbs.String()...)
		}
	})
}

// C35_Accounts: contracts and balances.
func C35_Accounts() {
	k := sym.Choose("kind", 3)
	pairOf(func(n string) job {
		value := sym.U64(n)
		data := sym.Bytes(n, []int{0, 24, 78}[k])
		return func() []byte {
			tx := &wire.ExtendedTx{Value: value, Data: data}
			var a wire.Account
			switch k {
			case 0:
				a = &wire.BasicAccount{}
			case 1:
				a = &wire.VestingAccount{}
			case 2:
				a = &wire.HTLCAccount{}
			}
			err := a.Init(tx, 1, value/2)
			out := flag(nil, err == nil)
			if err != nil {
				return out
			}
			b, err := a.ApplyIncomingTx(tx, 2)
			if out = flag(out, err == nil); err == nil {
				out = append(out, encoded(b)...)
			}
			b, err = a.ApplyOutgoingTx(tx, 2)
			if out = flag(out, err == nil); err == nil {
				out = append(out, encoded(b)...)
			}
			return flag(out, wire.AccountEq(a, a))
		}
	})
}

// C35_States: a block each, on a state each.
func C35_States() {
	pairOf(func(n string) job {
		bal, value := sym.U64(n), sym.U64(n)
		create := sym.Choose("create", 2) == 1
		return func() []byte {
			a := accounts.NewAccounts(&tree.PMTree{Store: tree.NewMemStore()})
			from, to := addrOf(0), addrOf(1)
			if bal != 0 {
				a.PutAccount(&from, &wire.BasicAccount{Value: bal})
			}
			var tx wire.Tx = &wire.BasicTx{SenderPubKey: pubOf(0), Recipient: to, Value: value, Fee: 2}
			if create {
				tx = &wire.ExtendedTx{Sender: from, Recipient: to, RecipientType: wire.AccountVesting, Value: value, Flags: wire.TxFlagContractCreation, Data: make([]byte, 24)}
			}
			b := block(3, addrOf(2), wire.WrapTx{Tx: tx})
			err := a.Push(b)
			h := a.Tree.Hash()
			out := flag(dup(h[:]), err == nil)
			return append(append(out, encoded(a.GetAccount(&from))...), encoded(a.GetAccount(&to))...)
		}
	})
}

// C35_Profiles: a genesis profile each.
func C35_Profiles() {
	p := smallest()
	p.conf = "network_id = 7\nname = \"one\"\nseed_peers = [\"a\", \"b\"]\n"
	p.accounts = rSlice(2, 1, rListed()).enc(nil, []genesis.Account{listed(addrOf(1), &wire.BasicAccount{Value: sym.U64("value")})})
	p.at("net")
	j := func() []byte {
		got, err := genesis.OpenProfile("net")
		out := flag(nil, err == nil)
		if err != nil {
			return out
		}
		out = append(out, got.Config.Name...)
		for _, a := range got.Accounts {
			out = append(append(out, a.Address[:]...), encoded(a.Account.Account)...)
		}
		a := newState()
		return flag(out, got.InitAccounts(a) == nil)
	}
	together(j, j)
}

// C35_Shared: encoding, sizing and comparing only reads.
func C35_Shared() {
	tx := rTx(0).gen("tx")
	acc := rAcc().gen("acc")
	addr := addrOf(1)
	addr[2] ^= 1 & sym.U8("addr")
	nbs := tree.KeyToNibbles(&addr)
	in := rContent(1).enc(nil, rContent(1).gen("content"))
	old := dup(in)
	j := func() []byte {
		out, err := beserial.Marshal(nil, &tx)
		out = flag(out, err == nil)
		n, err := beserial.Size(&acc)
		out = flag(number(out, uint64(n)), err == nil)
		out = flag(out, wire.AccountEq(acc.Account, acc.Account))
		out = append(out, address.Encode(&addr)...)
		out = append(append(out, nbs.HexBytes()...), nbs.Compress()...)
		var c wire.TxContent
		err = beserial.UnmarshalFull(in, &c)
		return flag(append(out, c.Data...), err == nil)
	}
	together(j, j)
	sym.Assert(bytes.Equal(in, old), "input is only read")
}
