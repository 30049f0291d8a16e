package props

// Reference codecs of the wire types, from the documented layouts.

import (
	"net"

	"terorie.dev/nimiq/wire"
	"verif/harness/sym"
)

func rAny[A, B any](r R[A], to func(A) B, from func(B) (A, bool)) R[B] {
	return R[B]{
		gen: func(n string) B { return to(r.gen(n)) },
		enc: func(b []byte, v B) []byte {
			a, ok := from(v)
			if !ok {
				panic("reference encoder: wrong kind")
			}
			return r.enc(b, a)
		},
		dec: func(b []byte) (B, []byte, bool) {
			v, rest, ok := r.dec(b)
			return to(v), rest, ok
		},
		eq: func(a, b B) bool {
			x, ok1 := from(a)
			y, ok2 := from(b)
			return ok1 && ok2 && r.eq(x, y)
		},
	}
}

func rBitSet(max int) R[wire.BitSet] {
	return R[wire.BitSet]{
		gen: func(n string) (s wire.BitSet) {
			s.Len = uint8(sym.Choose(n+".len", max+1))
			s.Bits = sym.Bytes(n+".bits", (int(s.Len)+7)/8)
			return
		},
		enc: func(b []byte, v wire.BitSet) []byte { return append(append(b, v.Len), v.Bits...) },
		dec: func(b []byte) (v wire.BitSet, rest []byte, ok bool) {
			if len(b) < 1 || (int(b[0])+7)/8 > len(b)-1 {
				return v, nil, false
			}
			k := int(sym.Concretize(uint64(b[0])+7) / 8)
			return wire.BitSet{Len: b[0], Bits: dup(b[1 : 1+k])}, b[1+k:], true
		},
		eq: func(a, b wire.BitSet) bool { return sym.And(a.Len == b.Len, sym.EqBytes(a.Bits, b.Bits)) },
	}
}

func rHash32() R[[32]byte] {
	return rStruct(raw("h", func(h *[32]byte) []byte { return h[:] }))
}

func rAddr() R[[20]byte] {
	return rStruct(raw("a", func(h *[20]byte) []byte { return h[:] }))
}

func nthBit(bits []byte, i int) bool { return bits[i/8]>>(7-uint(i%8))&1 == 1 }

func rMerkle(max int) R[wire.MerklePath] {
	bs, h := rBitSet(max), rHash32()
	return R[wire.MerklePath]{
		gen: func(n string) (p wire.MerklePath) {
			p.Branches = bs.gen(n + ".branches")
			p.Hashes = make([][32]byte, p.Branches.Len)
			for i := range p.Hashes {
				p.Hashes[i] = h.gen(n + ".hash")
			}
			return
		},
		enc: func(b []byte, p wire.MerklePath) []byte {
			b = bs.enc(b, p.Branches)
			for _, x := range p.Hashes {
				b = append(b, x[:]...)
			}
			return b
		},
		dec: func(b []byte) (p wire.MerklePath, rest []byte, ok bool) {
			p.Branches, b, ok = bs.dec(b)
			if !ok || int(p.Branches.Len)*32 > len(b) {
				return p, nil, false
			}
			p.Hashes = make([][32]byte, int(sym.Concretize(uint64(p.Branches.Len))))
			for i := range p.Hashes {
				p.Hashes[i], b, _ = h.dec(b)
			}
			return p, b, true
		},
		eq: func(a, b wire.MerklePath) bool {
			if len(a.Hashes) != len(b.Hashes) {
				return false
			}
			eq := bs.eq(a.Branches, b.Branches)
			for i := range a.Hashes {
				eq = sym.And(eq, a.Hashes[i] == b.Hashes[i])
			}
			return eq
		},
	}
}

func rProof(max int) R[wire.SignatureProof] {
	return rStruct(
		raw("PublicKey", func(s *wire.SignatureProof) []byte { return s.PublicKey[:] }),
		fld("MerklePath", func(s *wire.SignatureProof) *wire.MerklePath { return &s.MerklePath }, rMerkle(max)),
		raw("Signature", func(s *wire.SignatureProof) []byte { return s.Signature[:] }),
	)
}

func rStaking() R[wire.StakingTxData] {
	return rStruct(
		raw("ValidatorKey", func(s *wire.StakingTxData) []byte { return s.ValidatorKey[:] }),
		fld("RewardAddress", func(s *wire.StakingTxData) **[20]byte { return &s.RewardAddress }, rOpt(rAddr())),
		raw("ProofOfKnowledge", func(s *wire.StakingTxData) []byte { return s.ProofOfKnowledge[:] }),
	)
}

func rHash() R[wire.Hash] {
	return rStruct(
		fld("Algorithm", func(s *wire.Hash) *uint8 { return &s.Algorithm }, rU8()),
		raw("Bytes", func(s *wire.Hash) []byte { return s.Bytes[:] }),
	)
}

// ---- transactions ----

func rBasicTx() R[wire.BasicTx] {
	return rStruct(
		raw("SenderPubKey", func(s *wire.BasicTx) []byte { return s.SenderPubKey[:] }),
		raw("Recipient", func(s *wire.BasicTx) []byte { return s.Recipient[:] }),
		fld("Value", func(s *wire.BasicTx) *uint64 { return &s.Value }, rU64()),
		fld("Fee", func(s *wire.BasicTx) *uint64 { return &s.Fee }, rU64()),
		fld("ValidityStartHeight", func(s *wire.BasicTx) *uint32 { return &s.ValidityStartHeight }, rU32()),
		fld("NetworkID", func(s *wire.BasicTx) *uint8 { return &s.NetworkID }, rU8()),
		raw("Signature", func(s *wire.BasicTx) []byte { return s.Signature[:] }),
	)
}

func rExtTx(max int) R[wire.ExtendedTx] {
	return rStruct(
		fld("Data", func(s *wire.ExtendedTx) *[]byte { return &s.Data }, rBytes(2, max)),
		raw("Sender", func(s *wire.ExtendedTx) []byte { return s.Sender[:] }),
		fld("SenderType", func(s *wire.ExtendedTx) *uint8 { return &s.SenderType }, rU8()),
		raw("Recipient", func(s *wire.ExtendedTx) []byte { return s.Recipient[:] }),
		fld("RecipientType", func(s *wire.ExtendedTx) *uint8 { return &s.RecipientType }, rU8()),
		fld("Value", func(s *wire.ExtendedTx) *uint64 { return &s.Value }, rU64()),
		fld("Fee", func(s *wire.ExtendedTx) *uint64 { return &s.Fee }, rU64()),
		fld("ValidityStartHeight", func(s *wire.ExtendedTx) *uint32 { return &s.ValidityStartHeight }, rU32()),
		fld("NetworkID", func(s *wire.ExtendedTx) *uint8 { return &s.NetworkID }, rU8()),
		fld("Flags", func(s *wire.ExtendedTx) *uint8 { return &s.Flags }, rU8()),
		fld("Proof", func(s *wire.ExtendedTx) *[]byte { return &s.Proof }, rBytes(2, max)),
	)
}

func rContent(max int) R[wire.TxContent] {
	return rStruct(
		fld("Data", func(s *wire.TxContent) *[]byte { return &s.Data }, rBytes(2, max)),
		raw("Sender", func(s *wire.TxContent) []byte { return s.Sender[:] }),
		fld("SenderType", func(s *wire.TxContent) *uint8 { return &s.SenderType }, rU8()),
		raw("Recipient", func(s *wire.TxContent) []byte { return s.Recipient[:] }),
		fld("RecipientType", func(s *wire.TxContent) *uint8 { return &s.RecipientType }, rU8()),
		fld("Value", func(s *wire.TxContent) *uint64 { return &s.Value }, rU64()),
		fld("Fee", func(s *wire.TxContent) *uint64 { return &s.Fee }, rU64()),
		fld("ValidityStartHeight", func(s *wire.TxContent) *uint32 { return &s.ValidityStartHeight }, rU32()),
		fld("NetworkID", func(s *wire.TxContent) *uint8 { return &s.NetworkID }, rU8()),
		fld("Flags", func(s *wire.TxContent) *uint8 { return &s.Flags }, rU8()),
	)
}

// variant is one alternative of a type-prefixed union.
type variant[T any] struct {
	tag uint8
	is  func(T) bool
	R[T]
}

func asVariant[A, T any](tag uint8, r R[A], wrap func(*A) T, unwrap func(T) *A) variant[T] {
	return variant[T]{tag, func(v T) bool { return unwrap(v) != nil }, R[T]{
		gen: func(n string) T { a := r.gen(n); return wrap(&a) },
		enc: func(b []byte, v T) []byte { return r.enc(b, *unwrap(v)) },
		dec: func(b []byte) (T, []byte, bool) {
			a, rest, ok := r.dec(b)
			return wrap(&a), rest, ok
		},
		eq: func(a, b T) bool { return r.eq(*unwrap(a), *unwrap(b)) },
	}}
}

func rUnion[T any](vs ...variant[T]) R[T] {
	return R[T]{
		gen: func(n string) T { return vs[sym.Choose(n+".kind", len(vs))].gen(n) },
		enc: func(b []byte, v T) []byte {
			for _, x := range vs {
				if x.is(v) {
					return x.enc(append(b, x.tag), v)
				}
			}
			panic("reference encoder: unknown kind")
		},
		dec: func(b []byte) (v T, rest []byte, ok bool) {
			if len(b) < 1 {
				return v, nil, false
			}
			for _, x := range vs {
				if b[0] == x.tag {
					return x.dec(b[1:])
				}
			}
			return v, nil, false
		},
		eq: func(a, b T) bool {
			for _, x := range vs {
				if x.is(a) {
					return x.is(b) && x.eq(a, b)
				}
			}
			return false
		},
	}
}

func rTx(max int) R[wire.WrapTx] {
	return rUnion(
		asVariant(0, rBasicTx(), func(t *wire.BasicTx) wire.WrapTx { return wire.WrapTx{Tx: t} },
			func(w wire.WrapTx) *wire.BasicTx { t, _ := w.Tx.(*wire.BasicTx); return t }),
		asVariant(1, rExtTx(max), func(t *wire.ExtendedTx) wire.WrapTx { return wire.WrapTx{Tx: t} },
			func(w wire.WrapTx) *wire.ExtendedTx { t, _ := w.Tx.(*wire.ExtendedTx); return t }),
	)
}

// ---- accounts ----

func rBasicAcc() R[wire.BasicAccount] {
	return rStruct(fld("Value", func(s *wire.BasicAccount) *uint64 { return &s.Value }, rU64()))
}

func rVesting() R[wire.VestingAccount] {
	return rStruct(
		fld("Value", func(s *wire.VestingAccount) *uint64 { return &s.Value }, rU64()),
		raw("Owner", func(s *wire.VestingAccount) []byte { return s.Owner[:] }),
		fld("VestingStart", func(s *wire.VestingAccount) *uint32 { return &s.VestingStart }, rU32()),
		fld("VestingStepBlocks", func(s *wire.VestingAccount) *uint32 { return &s.VestingStepBlocks }, rU32()),
		fld("VestingStepAmount", func(s *wire.VestingAccount) *uint64 { return &s.VestingStepAmount }, rU64()),
		fld("VestingTotalAmount", func(s *wire.VestingAccount) *uint64 { return &s.VestingTotalAmount }, rU64()),
	)
}

func rHTLC() R[wire.HTLCAccount] {
	return rStruct(
		fld("Value", func(s *wire.HTLCAccount) *uint64 { return &s.Value }, rU64()),
		raw("Sender", func(s *wire.HTLCAccount) []byte { return s.Sender[:] }),
		raw("Recipient", func(s *wire.HTLCAccount) []byte { return s.Recipient[:] }),
		fld("Hash", func(s *wire.HTLCAccount) *wire.Hash { return &s.Hash }, rHash()),
		fld("HashCount", func(s *wire.HTLCAccount) *uint8 { return &s.HashCount }, rU8()),
		fld("Timeout", func(s *wire.HTLCAccount) *uint32 { return &s.Timeout }, rU32()),
		fld("TotalAmount", func(s *wire.HTLCAccount) *uint64 { return &s.TotalAmount }, rU64()),
	)
}

func rAcc() R[wire.WrapAccount] {
	return rUnion(
		asVariant(0, rBasicAcc(), func(t *wire.BasicAccount) wire.WrapAccount { return wire.WrapAccount{Account: t} },
			func(w wire.WrapAccount) *wire.BasicAccount { t, _ := w.Account.(*wire.BasicAccount); return t }),
		asVariant(1, rVesting(), func(t *wire.VestingAccount) wire.WrapAccount { return wire.WrapAccount{Account: t} },
			func(w wire.WrapAccount) *wire.VestingAccount { t, _ := w.Account.(*wire.VestingAccount); return t }),
		asVariant(2, rHTLC(), func(t *wire.HTLCAccount) wire.WrapAccount { return wire.WrapAccount{Account: t} },
			func(w wire.WrapAccount) *wire.HTLCAccount { t, _ := w.Account.(*wire.HTLCAccount); return t }),
	)
}

func rPruned() R[wire.AccountPruned] {
	return rStruct(
		raw("Address", func(s *wire.AccountPruned) []byte { return s.Address[:] }),
		fld("Account", func(s *wire.AccountPruned) *wire.WrapAccount { return &s.Account }, rAcc()),
	)
}

// ---- blocks ----

func rHeader() R[wire.BlockHeader] {
	return rStruct(
		fld("Version", func(s *wire.BlockHeader) *uint16 { return &s.Version }, rU16()),
		raw("PrevHash", func(s *wire.BlockHeader) []byte { return s.PrevHash[:] }),
		raw("InterlinkHash", func(s *wire.BlockHeader) []byte { return s.InterlinkHash[:] }),
		raw("BodyHash", func(s *wire.BlockHeader) []byte { return s.BodyHash[:] }),
		raw("AccountsHash", func(s *wire.BlockHeader) []byte { return s.AccountsHash[:] }),
		fld("NBits", func(s *wire.BlockHeader) *uint32 { return &s.NBits }, rU32()),
		fld("Height", func(s *wire.BlockHeader) *uint32 { return &s.Height }, rU32()),
		fld("Timestamp", func(s *wire.BlockHeader) *uint32 { return &s.Timestamp }, rU32()),
		fld("Nonce", func(s *wire.BlockHeader) *uint32 { return &s.Nonce }, rU32()),
	)
}

// rInterlink: hashes point to copies, compared by content.
func rInterlink(max int) R[wire.BlockInterlink] {
	bs := rBitSet(max)
	build := func(rep wire.BitSet, next func() ([32]byte, bool)) (il wire.BlockInterlink, ok bool) {
		il.Repeats = rep
		n := int(sym.Concretize(uint64(rep.Len)))
		var prev [32]byte
		for i := 0; i < n; i++ {
			if !nthBit(rep.Bits, i) {
				if prev, ok = next(); !ok {
					return il, false
				}
				il.Compressed = append(il.Compressed, prev)
			}
			h := prev
			il.Hashes = append(il.Hashes, &h)
		}
		return il, true
	}
	return R[wire.BlockInterlink]{
		gen: func(n string) wire.BlockInterlink {
			il, _ := build(bs.gen(n+".repeats"), func() ([32]byte, bool) { return rHash32().gen(n + ".hash"), true })
			return il
		},
		enc: func(b []byte, v wire.BlockInterlink) []byte {
			b = bs.enc(b, v.Repeats)
			for _, h := range v.Compressed {
				b = append(b, h[:]...)
			}
			return b
		},
		dec: func(b []byte) (il wire.BlockInterlink, rest []byte, ok bool) {
			rep, b, ok := bs.dec(b)
			if !ok {
				return il, nil, false
			}
			il, ok = build(rep, func() (h [32]byte, ok bool) {
				h, b, ok = rHash32().dec(b)
				return
			})
			return il, b, ok
		},
		eq: func(a, b wire.BlockInterlink) bool {
			if len(a.Hashes) != len(b.Hashes) || len(a.Compressed) != len(b.Compressed) {
				return false
			}
			eq := bs.eq(a.Repeats, b.Repeats)
			for i := range a.Compressed {
				eq = sym.And(eq, a.Compressed[i] == b.Compressed[i])
			}
			for i := range a.Hashes {
				if a.Hashes[i] == nil || b.Hashes[i] == nil {
					return false
				}
				eq = sym.And(eq, *a.Hashes[i] == *b.Hashes[i])
			}
			return eq
		},
	}
}

func rBody(extra, txs, pruned int) R[wire.BlockBody] {
	return rStruct(
		raw("MinerAddr", func(s *wire.BlockBody) []byte { return s.MinerAddr[:] }),
		fld("ExtraData", func(s *wire.BlockBody) *[]byte { return &s.ExtraData }, rBytes(1, extra)),
		fld("Txs", func(s *wire.BlockBody) *[]wire.WrapTx { return &s.Txs }, rSlice(2, txs, rTx(1))),
		fld("Pruned", func(s *wire.BlockBody) *[]wire.AccountPruned { return &s.Pruned }, rSlice(2, pruned, rPruned())),
	)
}

func rBlock(links, extra, txs, pruned int) R[wire.Block] {
	return rStruct(
		fld("Header", func(s *wire.Block) *wire.BlockHeader { return &s.Header }, rHeader()),
		fld("Interlink", func(s *wire.Block) *wire.BlockInterlink { return &s.Interlink }, rInterlink(links)),
		fld("Body", func(s *wire.Block) **wire.BlockBody { return &s.Body }, rOpt(rBody(extra, txs, pruned))),
	)
}

// ---- peers ----

func rNet() R[wire.NetAddress] {
	ipLen := []int{4, 16, 0, 0}
	return R[wire.NetAddress]{
		gen: func(n string) wire.NetAddress {
			t := sym.Choose(n+".type", 4)
			na := wire.NetAddress{Type: uint8(t)}
			if ipLen[t] > 0 {
				na.IP = net.IP(sym.Bytes(n+".ip", ipLen[t]))
			}
			return na
		},
		enc: func(b []byte, v wire.NetAddress) []byte { return append(append(b, v.Type), v.IP...) },
		dec: func(b []byte) (v wire.NetAddress, rest []byte, ok bool) {
			if len(b) < 1 || b[0] > 3 {
				return v, nil, false
			}
			t := int(sym.Concretize(uint64(b[0])))
			if len(b)-1 < ipLen[t] {
				return v, nil, false
			}
			return wire.NetAddress{Type: b[0], IP: net.IP(dup(b[1 : 1+ipLen[t]]))}, b[1+ipLen[t]:], true
		},
		eq: func(a, b wire.NetAddress) bool { return sym.And(a.Type == b.Type, sym.EqBytes(a.IP, b.IP)) },
	}
}

func rPeerHeader() R[wire.PeerAddressHeader] {
	return rStruct(
		fld("Protocol", func(s *wire.PeerAddressHeader) *uint8 { return &s.Protocol }, rU8()),
		fld("Services", func(s *wire.PeerAddressHeader) *uint32 { return &s.Services }, rU32()),
		fld("Timestamp", func(s *wire.PeerAddressHeader) *uint64 { return &s.Timestamp }, rU64()),
		fld("NetAddress", func(s *wire.PeerAddressHeader) *wire.NetAddress { return &s.NetAddress }, rNet()),
		raw("PublicKey", func(s *wire.PeerAddressHeader) []byte { return s.PublicKey[:] }),
		fld("Distance", func(s *wire.PeerAddressHeader) *uint8 { return &s.Distance }, rU8()),
		raw("Signature", func(s *wire.PeerAddressHeader) []byte { return s.Signature[:] }),
	)
}

func rPeerSrv(max int) R[wire.PeerAddressSrv] {
	return rStruct(
		fld("Host", func(s *wire.PeerAddressSrv) *string { return &s.Host }, rString(1, max)),
		fld("Port", func(s *wire.PeerAddressSrv) *uint16 { return &s.Port }, rU16()),
		fld("TLS", func(s *wire.PeerAddressSrv) *bool { return &s.TLS }, rBool()),
	)
}

func rPeer(max int) R[wire.PeerAddress] {
	hd, srv := rPeerHeader(), rPeerSrv(max)
	return R[wire.PeerAddress]{
		gen: func(n string) (p wire.PeerAddress) {
			p.PeerAddressHeader = hd.gen(n)
			p.Protocol = []uint8{0, 1, 4}[sym.Choose(n+".proto", 3)]
			if p.Protocol != 0 {
				d := srv.gen(n + ".detail")
				p.Detail = &d
			}
			return
		},
		enc: func(b []byte, p wire.PeerAddress) []byte {
			b = hd.enc(b, p.PeerAddressHeader)
			if p.Protocol != 0 {
				b = srv.enc(b, *p.Detail.(*wire.PeerAddressSrv))
			}
			return b
		},
		dec: func(b []byte) (p wire.PeerAddress, rest []byte, ok bool) {
			if p.PeerAddressHeader, b, ok = hd.dec(b); !ok {
				return p, nil, false
			}
			switch p.Protocol {
			case 0:
				return p, b, true
			case 1, 4:
				var d wire.PeerAddressSrv
				d, b, ok = srv.dec(b)
				p.Detail = &d
				return p, b, ok
			}
			return p, nil, false
		},
		eq: func(a, b wire.PeerAddress) bool {
			eq := hd.eq(a.PeerAddressHeader, b.PeerAddressHeader)
			if a.Detail == nil || b.Detail == nil {
				return a.Detail == nil && b.Detail == nil && eq
			}
			x, ok1 := a.Detail.(*wire.PeerAddressSrv)
			y, ok2 := b.Detail.(*wire.PeerAddressSrv)
			return ok1 && ok2 && sym.And(eq, srv.eq(*x, *y))
		},
	}
}
