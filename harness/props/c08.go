package props

import (
	"bytes"
	"terorie.dev/nimiq/beserial"
	"terorie.dev/nimiq/wire"
	"verif/harness/sym"
)

// msg is one message kind: its number and what is checked about it.
type msg struct {
	typ    uint64
	lens   []int // body lengths tried with arbitrary bytes
	lens2  []int // further ones
	round  func()
	accept func(b []byte)
	size   func()
}

type msgPtr[T any] interface {
	*T
	wire.Message
}

func mk[T any, P msgPtr[T]](typ uint64, r R[T], lens, lens2 []int) msg {
	m := msg{typ: typ, lens: lens, lens2: lens2}
	m.size = func() { sized(r) }
	check := func(got wire.Message, want T, label string) {
		p, ok := got.(P)
		sym.Assert(ok && p != nil, label+": same kind")
		sym.Assert(p.Type() == typ, label+": same type number")
		sym.Assert(r.eq(*(*T)(p), want), label+": equal")
	}
	m.round = func() {
		v := r.gen("m")
		sym.Assert(P(&v).Type() == typ, "the message knows its type number")
		want := r.enc(nil, v)
		b, err := wire.MarshalMessage(P(&v))
		sym.Assert(err == nil, "the message encodes")
		_, _ = wire.MarshalMessage(P(new(T)))
		sym.Assert(sym.EqBytes(b, append([]byte{0, 0, 0, 0, 0, 0, 0, byte(typ)}, want...)), "type number and body")
		got, err := wire.UnmarshalMessage(typ, b[8:])
		sym.Assert(err == nil, "the body decodes")
		_, _ = wire.UnmarshalMessage(typ, append(bytes.Repeat([]byte{1}, len(want)/2), make([]byte, (len(want)+1)/2)...))
		_, _ = wire.MarshalMessage(P(new(T)))
		_, _ = wire.MarshalMessage(wire.MempoolMessage)
		check(got, v, "decoded")
		sym.ObserveBytes("enc", b)
		// One byte more or less.
		_, err = wire.UnmarshalMessage(typ, append(dup(want), sym.U8("extra")))
		sym.Assert(err != nil, "extra bytes are rejected")
		if len(want) > 0 {
			_, err = wire.UnmarshalMessage(typ, want[:len(want)-1])
			sym.Assert(err != nil, "missing bytes are rejected")
		}
	}
	m.accept = func(b []byte) {
		in := dup(b)
		got, err := wire.UnmarshalMessage(typ, in)
		want, rest, ok := r.dec(b)
		ok = ok && len(rest) == 0
		sym.Assert((err == nil) == ok, "accepted exactly when the body is valid")
		if !ok {
			return
		}
		sym.Reach("accepted")
		check(got, want, "accepted")
		enc, err := wire.MarshalMessage(got)
		sym.Assert(err == nil && sym.EqBytes(enc[8:], b), "accepted bodies re-encode to the same bytes")
	}
	return m
}

func rVersion(max int) R[wire.VersionMessage] {
	return rStruct(
		fld("Version", func(s *wire.VersionMessage) *uint32 { return &s.Version }, rU32()),
		fld("PeerAddress", func(s *wire.VersionMessage) *wire.PeerAddress { return &s.PeerAddress }, rPeer(max)),
		raw("GenesisHash", func(s *wire.VersionMessage) []byte { return s.GenesisHash[:] }),
		raw("HeadHash", func(s *wire.VersionMessage) []byte { return s.HeadHash[:] }),
		raw("ChallengeNonce", func(s *wire.VersionMessage) []byte { return s.ChallengeNonce[:] }),
		fld("UserAgent", func(s *wire.VersionMessage) *string { return &s.UserAgent }, rString(1, max)),
	)
}

func rInv(typ uint64) R[wire.InvMessage] {
	vec := rStruct(
		fld("Type", func(s *wire.InvVector) *uint32 { return &s.Type }, rU32()),
		raw("Hash", func(s *wire.InvVector) []byte { return s.Hash[:] }),
	)
	return conv(rSlice(2, 2, vec),
		func(v []wire.InvVector) wire.InvMessage { return wire.InvMessage{MessageType: typ, Vectors: v} },
		func(m wire.InvMessage) []wire.InvVector { return m.Vectors })
}

func rPing(pong bool) R[wire.BasePingMessage] {
	return conv(rU32(), func(n uint32) wire.BasePingMessage { return wire.BasePingMessage{Nonce: n, Pong: pong} },
		func(m wire.BasePingMessage) uint32 { return m.Nonce })
}

func lens(l ...int) []int { return l }

func msgs() []msg {
	return []msg{
		mk[wire.VersionMessage](0, rVersion(1), lens(0, 3, 100, 211, 212, 213, 215, 216), lens(214, 217, 219, 220, 227, 228, 232)),
		mk[wire.InvMessage](1, rInv(1), lens(0, 1, 2, 3, 37, 38, 39), lens(73, 74, 75)),
		mk[wire.InvMessage](2, rInv(2), lens(1, 2, 38), lens(73, 74, 75)),
		mk[wire.InvMessage](3, rInv(3), lens(1, 2, 38), lens(73, 74, 75)),
		mk[wire.InvMessage](4, rInv(4), lens(1, 2, 38), lens(73, 74, 75)),
		mk[wire.GetBlocksMessage](5, rStruct(
			fld("Locators", func(s *wire.GetBlocksMessage) *[][32]byte { return &s.Locators }, rSlice(2, 2, rHash32())),
			fld("MaxInvSize", func(s *wire.GetBlocksMessage) *uint16 { return &s.MaxInvSize }, rU16()),
			fld("Direction", func(s *wire.GetBlocksMessage) *uint8 { return &s.Direction }, rU8()),
		), lens(0, 1, 4, 5, 6, 36, 37, 38), lens(68, 69, 70)),
		mk[wire.BlockMessage](6, conv(rBlock(1, 1, 1, 1), func(b wire.Block) wire.BlockMessage { return wire.BlockMessage{Block: b} },
			func(m wire.BlockMessage) wire.Block { return m.Block }), lens(0, 146, 147, 148, 149, 173), lens(174, 181)),
		mk[wire.HeaderMessage](7, conv(rHeader(), func(b wire.BlockHeader) wire.HeaderMessage { return wire.HeaderMessage{BlockHeader: b} },
			func(m wire.HeaderMessage) wire.BlockHeader { return m.BlockHeader }), lens(0, 145, 146, 147), nil),
		mk[wire.TxMessage](8, rStruct(fld("Tx", func(s *wire.TxMessage) *wire.WrapTx { return &s.Tx }, rTx(1))),
			lens(0, 1, 68, 69, 70, 71, 137, 138), lens(139)),
		mk[wire.AddrMessage](20, rStruct(fld("Addresses", func(s *wire.AddrMessage) *[]wire.PeerAddress { return &s.Addresses }, rSlice(2, deep(1, 2), rPeer(1)))),
			lens(0, 1, 2, 3, 113, 114), lens(117, 118, 119)),
		mk[wire.GetAddrMessage](21, rStruct(
			fld("ProtocolMask", func(s *wire.GetAddrMessage) *uint8 { return &s.ProtocolMask }, rU8()),
			fld("ServiceMask", func(s *wire.GetAddrMessage) *uint32 { return &s.ServiceMask }, rU32()),
			fld("MaxResults", func(s *wire.GetAddrMessage) *uint16 { return &s.MaxResults }, rU16()),
		), lens(0, 6, 7, 8), nil),
		mk[wire.BasePingMessage](22, rPing(false), lens(0, 3, 4, 5), nil),
		mk[wire.BasePingMessage](23, rPing(true), lens(0, 3, 4, 5), nil),
		mk[wire.GetTxProofMessage](47, rStruct(
			raw("BlockHash", func(s *wire.GetTxProofMessage) []byte { return s.BlockHash[:] }),
			fld("Addresses", func(s *wire.GetTxProofMessage) *[][20]byte { return &s.Addresses }, rSlice(2, 2, rAddr())),
		), lens(0, 31, 33, 34, 35, 54, 55), lens(73, 74)),
		mk[wire.GetTxReceiptsMessage](49, rStruct(
			raw("Address", func(s *wire.GetTxReceiptsMessage) []byte { return s.Address[:] }),
			fld("Offset", func(s *wire.GetTxReceiptsMessage) *uint32 { return &s.Offset }, rU32()),
		), lens(0, 20, 23, 24, 25), nil),
		mk[wire.HeadMessage](61, conv(rHeader(), func(b wire.BlockHeader) wire.HeadMessage { return wire.HeadMessage{BlockHeader: b} },
			func(m wire.HeadMessage) wire.BlockHeader { return m.BlockHeader }), lens(0, 145, 146, 147), nil),
		mk[wire.VerAckMessage](90, rStruct(
			raw("PublicKey", func(s *wire.VerAckMessage) []byte { return s.PublicKey[:] }),
			raw("Signature", func(s *wire.VerAckMessage) []byte { return s.Signature[:] }),
		), lens(0, 95, 96, 97), nil),
	}
}

func C08_RoundTrip() {
	ms := msgs()
	ms[sym.Choose("msg", len(ms))].round()
}

func C08_Arbitrary() {
	ms := msgs()
	m := ms[sym.Choose("msg", len(ms))]
	ls := m.lens
	if sym.Thorough() {
		ls = append(ls, m.lens2...)
	}
	b := sym.Bytes("b", ls[sym.Choose("len", len(ls))])
	if m.typ == 6 && len(b) > 146 {
		sym.Assume(b[146] <= 1)
		sym.Bound("interlink length", "0..1")
	}
	m.accept(b)
}

var emptyMsgs = []wire.EmptyMessage{wire.MempoolMessage, wire.GetChainProofMessage, wire.GetHeadMessage}

// C08_Empty: messages without a body.
func C08_Empty() {
	i := sym.Choose("msg", 3)
	m, typ := emptyMsgs[i], []uint64{9, 40, 60}[i]
	sym.Assert(m.Type() == typ, "the message knows its type number")
	b, err := wire.MarshalMessage(m)
	sym.Assert(err == nil && sym.EqBytes(b, []byte{0, 0, 0, 0, 0, 0, 0, byte(typ)}), "only the type number")
	body := sym.Bytes("b", sym.Choose("len", 3))
	got, err := wire.UnmarshalMessage(typ, body)
	sym.Assert((err == nil) == (len(body) == 0), "only an empty body is accepted")
	if err == nil {
		sym.Assert(got == wire.Message(m) && got.Type() == typ, "equal message of the same type number")
	}
}

// C08_Numbers: every type number is either one of the kinds or unknown.
func C08_Numbers() {
	typ := sym.U64("typ")
	n := sym.Choose("len", 3)
	b := sym.Bytes("b", n)
	known := []uint64{9, 40, 60}
	for _, m := range msgs() {
		known = append(known, m.typ)
	}
	isKnown := false
	for _, k := range known {
		isKnown = sym.Or(isKnown, typ == k)
	}
	m, err := wire.UnmarshalMessage(typ, b)
	if isKnown {
		if err == nil {
			sym.Assert(m.Type() == typ, "decoded messages report their type number")
		} else {
			_, unknown := err.(wire.UnknownMessageError)
			sym.Assert(!unknown, "known numbers are not reported as unknown")
		}
		return
	}
	u, ok := err.(wire.UnknownMessageError)
	sym.Assert(ok && uint64(u) == typ && m == nil, "unknown numbers are reported as unknown")
}

// C08_Fixed: the numbers of the protocol.
func C08_Fixed() {
	sym.Assert(wire.MessageVersion == 0 && wire.MessageVerAck == 90 && wire.MessageGetTxReceipts == 49, "numbers")
	v := wire.VersionMessage{UserAgent: string(make([]byte, 256))}
	_, err := wire.MarshalMessage(&v)
	sym.Assert(err != nil, "too long user agents are reported")
	t := wire.TxMessage{}
	_, err = wire.MarshalMessage(&t)
	sym.Assert(err != nil, "missing transactions are reported")
	_, err = beserial.Size(&t)
	sym.Assert(err != nil, "missing transactions have no size")
}
