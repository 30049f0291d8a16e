package props

import (
	"net"

	"terorie.dev/nimiq/beserial"
	"terorie.dev/nimiq/wire"
	"verif/harness/sym"
)

func C05_Header()    { roundTrip(rHeader()) }
func C05_Interlink() { roundTrip(rInterlink(deep(9, 11))) }
func C05_Body()      { roundTrip(rBody(2, 2, deep(1, 2))) }
func C05_Block()     { roundTrip(rBlock(2, 1, 1, 1)) }

func C05_Keeps() {
	if sym.Choose("what", 2) == 0 {
		leaves(rInterlink(deep(3, 5)))
	} else {
		leaves(rBody(1, 1, 1))
	}
}

func C05_HeaderAny()     { anyInput(rHeader(), 144, 148) }
func C05_BitSetAny()     { anyWire(rBitSet(0), 0, deep(8, 34)) }
func C05_InterlinkTiny() { anyWire(rInterlink(0), 0, 3) }

// capped limits the number of repeat bits by an assumption on the count byte.
func capped[T any](r R[T], at int, limit uint8, lens ...int) {
	n := lens[sym.Choose("len", len(lens))]
	b := sym.Bytes("b", n)
	if n > at {
		sym.Assume(b[at] <= limit)
	}
	sym.Bound("count byte", "0.."+itoa(int(limit)))
	bytesAgree(r, b, 256)
}

func C05_InterlinkAny() {
	capped(rInterlink(0), 0, uint8(deep(8, 12)), 33, 34, 35, 65, 66, 67, 98, 99)
}

func C05_InterlinkMany() {
	// Counts needing more than one byte of repeat bits, mostly repeats.
	b := sym.Bytes("b", 1+3+32+31)
	sym.Assume(b[0] >= 16 && b[0] <= uint8(deep(20, 24)))
	b[1], b[2] = 0xff, b[2]|0xf0
	bytesAgree(rInterlink(0), b, 256)
}

// C05_InterlinkFull is the longest interlink: 255 entries.
func C05_InterlinkFull() {
	b := sym.Bytes("b", 1+32+2*32)
	b[0] = 255
	for i := 1; i <= 32; i++ {
		b[i] = 0xff
	}
	b[1] = 0x7f
	b[32] = 0xff ^ 1<<uint(sym.Choose("where", 8))
	bytesAgree(rInterlink(0), b, 256)
}

func C05_BodyAny() { capped(rBody(0, 0, 0), 20, 2, 0, 20, 21, 24, 25, 26, 27, 28) }

// C05_BodyLong has room for transactions and pruned accounts.
func C05_BodyLong() {
	// transactions, kind of the first, input length
	c := [][3]int{{0, 0, 54}, {1, 0, 163}, {1, 1, 94}, {1, 1, 95}, {0, 2, 53}, {1, 0, 192}, {1, 1, 124}}[sym.Choose("case", deep(5, 7))]
	b := sym.Bytes("b", c[2])
	b[20], b[21], b[22] = 0, 0, byte(c[0])
	if c[0] > 0 {
		b[23] = byte(c[1])
	}
	if c[1] == 1 {
		sym.Assume(b[24] == 0 && b[25] <= 2)
	}
	sym.Bound("extra data", "0")
	sym.Bound("transactions", "0..1")
	sym.Bound("first transaction's data", "0..2")
	bytesAgree(rBody(0, 0, 0), b, 256)
}

func C05_BlockAny() {
	// header, count, repeat bits, hashes, body flag, body
	capped(rBlock(0, 0, 0, 0), 146, uint8(deep(1, 2)), 0, 145, 146, 147, 148, 149, 172, 173, 175, 181)
}

// C05_Previous: leading repeats stand for the hash of the previous block.
func C05_Previous() {
	n := sym.Choose("n", 4)
	il := wire.BlockInterlink{PrevHash: rHash32().gen("prev")}
	prev := il.PrevHash
	in := append([]byte{byte(n), 0xff}, sym.Bytes("tail", 33)...)
	if n == 0 {
		in = append([]byte{0}, in[2:]...)
	}
	k, err := beserial.Unmarshal(in, &il)
	sym.Assert(err == nil && len(il.Hashes) == n && k == 1+(n+7)/8, "repeats only")
	for _, h := range il.Hashes {
		sym.Assert(*h == prev, "leading repeats stand for the previous hash")
	}
}

func C06_Basic()    { roundTrip(rBasicTx()) }
func C06_Extended() { roundTrip(rExtTx(deep(3, 6))) }
func C06_Wrapped()  { roundTrip(rTx(deep(3, 6))) }
func C06_Content()  { roundTrip(rContent(3)) }
func C06_Any()      { sizes(rTx(0), 0, 1, 2, 68, 69, 70, 71, 72, 73, 75, 137, 138) }
func C06_AnyBasic() {
	n := sym.Range("len", 136, 141)
	b := sym.Bytes("b", n)
	sym.Assume(b[0] != 1)
	bytesAgree(rTx(0), b, 256)
}
func C06_Nested() {
	type s struct {
		A uint8
		T []wire.WrapTx `beserial:"len_tag=uint8"`
		B uint16
	}
	r := rStruct(
		fld("A", func(s *s) *uint8 { return &s.A }, rU8()),
		fld("T", func(s *s) *[]wire.WrapTx { return &s.T }, rSlice(1, 2, rTx(1))),
		fld("B", func(s *s) *uint16 { return &s.B }, rU16()),
	)
	roundTrip(r)
}

func C06_Keeps() { leaves(rTx(2)) }

// C06_Long has data and proofs past one length byte.
func C06_Long() {
	t := rExtTx(0).gen("t")
	n := []int{255, 256, 300, 1000}[sym.Choose("n", 4)]
	t.Data, t.Proof = make([]byte, n), make([]byte, n+1)
	t.Data[n-1], t.Proof[n] = sym.U8("d"), sym.U8("p")
	v := wire.WrapTx{Tx: &t}
	agrees(rTx(0), v)
}

// C06_Methods calls the codec directly, as callers do.
func C06_Methods() {
	r := rTx(2)
	v := r.gen("v")
	want := r.enc(nil, v)
	got, err := v.MarshalBESerial([]byte{7})
	sym.Assert(err == nil && sym.EqBytes(got, append([]byte{7}, want...)), "appends the layout")
	var out wire.WrapTx
	n, err := out.UnmarshalBESerial(append(dup(want), 9))
	sym.Assert(err == nil && n == len(want) && r.eq(out, v), "decodes to an equal transaction")
	size, err := v.SizeBESerial()
	sym.Assert(err == nil && size == len(want), "size")
}

func C07_Basic()   { roundTrip(rBasicAcc()) }
func C07_Vesting() { roundTrip(rVesting()) }
func C07_HTLC()    { roundTrip(rHTLC()) }
func C07_Wrapped() { roundTrip(rAcc()) }
func C07_Hash()    { roundTrip(rHash()) }
func C07_Pruned()  { roundTrip(rPruned()) }
func C07_HashAny() { anyInput(rHash(), 0, 35) }
func C07_Any()     { sizes(rAcc(), 0, 1, 8, 9, 10, 52, 53, 54, 94, 95, 96, 97) }
func C07_Keeps() {
	if sym.Choose("what", 2) == 0 {
		leaves(rAcc())
	} else {
		leaves(rPruned())
	}
}
func C07_Methods() {
	r := rAcc()
	v := r.gen("v")
	want := r.enc(nil, v)
	got, err := v.MarshalBESerial([]byte{7})
	sym.Assert(err == nil && sym.EqBytes(got, append([]byte{7}, want...)), "appends the layout")
	var out wire.WrapAccount
	n, err := out.UnmarshalBESerial(append(dup(want), 9))
	sym.Assert(err == nil && n == len(want) && r.eq(out, v), "decodes to an equal account")
	size, err := v.SizeBESerial()
	sym.Assert(err == nil && size == len(want), "size")
}

func C07_Equal() {
	r := rAcc()
	a, b := r.gen("a"), r.gen("b")
	eq := wire.AccountEq(a.Account, b.Account)
	sym.Observe("eq", sym.Ite(eq, 1, 0))
	sym.Assert(eq == sym.EqBytes(r.enc(nil, a), r.enc(nil, b)), "equal exactly when the encodings are")
	sym.Assert(wire.AccountEq(b.Account, a.Account) == eq, "symmetric")
	sym.Assert(wire.AccountEq(a.Account, a.Account), "reflexive")
	sym.Assert(!wire.AccountEq(a.Account, nil) && !wire.AccountEq(nil, a.Account) && !wire.AccountEq(nil, nil),
		"a missing account equals nothing")
}

func C09_Net()    { roundTrip(rNet()) }
func C09_NetAny() { anyInput(rNet(), 0, 19) }
func C09_Peer()   { roundTrip(rPeer(deep(3, 6))) }
func C09_PeerAny() {
	sizes(rPeer(0), 0, 12, 13, 14, 110, 111, 112, 114, 115, 116, 118, 119, 120, 126, 127, 128, 131, 132)
}

// C09_IPv4: the net package keeps IPv4 addresses in 16 bytes.
func C09_IPv4() {
	ip := sym.Bytes("ip", 4)
	p := rPeer(1).gen("p")
	p.NetAddress = wire.NetAddress{Type: wire.NetAddressIPv4, IP: net.IPv4(ip[0], ip[1], ip[2], ip[3])}
	q := p
	q.NetAddress.IP = ip
	want := rPeer(1).enc(nil, q)
	b, err := beserial.Marshal(nil, &p)
	sym.Assert(err == nil && sym.EqBytes(b, want), "an IPv4 address is 4 bytes in any representation")
	n, err := beserial.Size(&p)
	sym.Assert(err == nil && n == len(want), "and has that size")
	var out wire.PeerAddress
	n, err = beserial.Unmarshal(append(b, 3), &out)
	sym.Assert(err == nil && n == len(want) && rPeer(1).eq(out, q), "and decodes to the same address")
	sym.Assert(out.NetAddress.IP.Equal(p.NetAddress.IP), "equal to the one encoded")
}

func C09_Server() { roundTrip(rPeerSrv(4)) }
func C09_SrvAny() { anyInput(rPeerSrv(0), 0, deep(8, 14)) }
func C09_Keeps() {
	if sym.Choose("what", 2) == 0 {
		leaves(rNet())
	} else {
		leaves(rPeer(1))
	}
}
func C09_ReuseNet() { reuse(rNet()) }
func C09_ReusePeer() {
	reuse(rPeer(1))
}

// C09_Protocols: other protocols are rejected both ways.
func C09_Protocols() {
	p := rPeer(1).gen("p")
	p.Protocol = sym.U8("proto")
	sym.Assume(p.Protocol != 0 && p.Protocol != 1 && p.Protocol != 4)
	_, err := beserial.Marshal(nil, &p)
	sym.Assert(err != nil, "unknown protocols do not encode")
	_, err = beserial.Size(&p)
	sym.Assert(err != nil, "unknown protocols have no size")
	in := append(rPeerHeader().enc(nil, p.PeerAddressHeader), sym.Bytes("tail", 5)...)
	var out wire.PeerAddress
	_, err = beserial.Unmarshal(in, &out)
	sym.Assert(err != nil, "unknown protocols do not decode")
}
