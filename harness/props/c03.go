package props

import (
	"terorie.dev/nimiq/beserial"
	"terorie.dev/nimiq/wire"
	"verif/harness/sym"
)

// sized compares the reported size with the encoding.
func sized[T any](r R[T]) { sizedVal(r, r.gen("v")) }

func sizedVal[T any](r R[T], v T) {
	want := len(r.enc(nil, v))
	elsewhere[T]()
	n, err := beserial.Size(&v)
	sym.Assert(err == nil && n == want, "the reported size is the encoded length")
	b, err := beserial.Marshal(nil, &v)
	sym.Assert(err == nil && len(b) == n, "the encoding has the reported size")
	if c, ok := any(&v).(beserial.Marshaler); ok {
		n, err = c.SizeBESerial()
		sym.Assert(err == nil && n == want, "the codec's own size is the encoded length")
		b, err = c.MarshalBESerial([]byte{1})
		sym.Assert(err == nil && len(b) == want+1, "the codec's own encoding has that size")
	}
	p := &v
	n, err = beserial.Size(&p)
	sym.Assert(err == nil && n == want, "size behind another pointer")
	sym.Observe("size", uint64(n))
}

func C03_Ints()       { sized(rInts()) }
func C03_Named()      { sized(rNamed()) }
func C03_Lengths()    { sized(rLens(3)) }
func C03_Strings()    { sized(rLens2(3)) }
func C03_Nested()     { sized(rNest()) }
func C03_Arrays()     { sized(rArr()) }
func C03_Optional()   { sized(rOptT()) }
func C03_Optional2()  { sized(rOpt2()) }
func C03_Custom()     { sized(rTCust()) }
func C03_CustomVar()  { sized(rTCvar()) }
func C03_CustomByte() { sized(rTCbyte()) }
func C03_Pointers()   { sized(rPtrs()) }
func C03_Toplevel() {
	switch sym.Choose("kind", 13) {
	case 0:
		sized(rU8())
	case 1:
		sized(rU16())
	case 2:
		sized(rU32())
	case 3:
		sized(rU64())
	case 4:
		sized(rI8())
	case 5:
		sized(rI16())
	case 6:
		sized(rI32())
	case 7:
		sized(rI64())
	case 8:
		sized(rBool())
	case 9:
		sized(rCust())
	case 10:
		sized(rCvar())
	case 11:
		sized(rCbyte())
	case 12:
		sized(rStruct(raw("a", func(a *[5]byte) []byte { return a[:] })))
	}
}

// Custom codecs in every container.
func C03_Combos() {
	type s struct {
		A []cvar `beserial:"len_tag=uint8"`
		B [2]cvar
		C [][2]cvar `beserial:"len_tag=uint16"`
		D *[]cvar   `beserial:"optional,len_tag=uint32"`
	}
	sized(rStruct(
		fld("A", func(s *s) *[]cvar { return &s.A }, rSlice(1, 2, rCvar())),
		each("B", func(s *s) []cvar { return s.B[:] }, rCvar()),
		fld("C", func(s *s) *[][2]cvar { return &s.C }, rSlice(2, 1, rStruct(each("c", func(a *[2]cvar) []cvar { return a[:] }, rCvar())))),
		fld("D", func(s *s) **[]cvar { return &s.D }, rOpt(rSlice(4, 1, rCvar()))),
	))
}

func C03_Combos2() {
	type s struct {
		E []*cvar `beserial:"len_tag=uint64"`
		F [2]bool
		G []bool `beserial:"len_tag=uint8"`
		H struct {
			I cvar
			J [2]cbyte
		}
		K []nB      `beserial:"len_tag=uint8"`
		L [][]cbyte `beserial:"len_tag=uint8"`
	}
	sized(rStruct(
		fld("E", func(s *s) *[]*cvar { return &s.E }, rSlice(8, 2, rPtr(rCvar()))),
		each("F", func(s *s) []bool { return s.F[:] }, rBool()),
		fld("G", func(s *s) *[]bool { return &s.G }, rSlice(1, 2, rBool())),
		fld("I", func(s *s) *cvar { return &s.H.I }, rCvar()),
		each("J", func(s *s) []cbyte { return s.H.J[:] }, rCbyte()),
		fld("K", func(s *s) *[]nB { return &s.K }, rSlice(1, 1, conv(rBool(), func(a bool) nB { return nB(a) }, func(b nB) bool { return bool(b) }))),
		fld("L", func(s *s) *[][]cbyte { return &s.L }, rSlice(1, 0, rSlice(1, 0, rCbyte()))),
	))
}

func C03_Txs()       { sized(rTx(3)) }
func C03_TxContent() { sized(rContent(3)) }
func C03_Accounts()  { sized(rAcc()) }
func C03_Pruned()    { sized(rPruned()) }
func C03_Header()    { sized(rHeader()) }
func C03_Interlink() { sized(rInterlink(deep(9, 12))) }
func C03_Body()      { sized(rBody(2, 2, 2)) }
func C03_Block()     { sized(rBlock(2, 1, 2, 1)) }
func C03_Peer()      { sized(rPeer(3)) }
func C03_Net()       { sized(rNet()) }
func C03_Merkle()    { sized(rMerkle(9)) }
func C03_Proof()     { sized(rProof(2)) }
func C03_Staking()   { sized(rStaking()) }
func C03_Hash()      { sized(rHash()) }

// C03_BitSet covers every length a bit set can have.
func C03_BitSet() {
	n := sym.Choose("len", 256)
	v := wire.BitSet{Len: uint8(n), Bits: make([]byte, (n+7)/8)}
	sizedVal(rBitSet(0), v)
}

// loose compares size and encoding of values whose parts do not fit together.
func loose[T any](v T) {
	b, err := beserial.Marshal(nil, &v)
	if err != nil {
		return
	}
	n, err := beserial.Size(&v)
	sym.Assert(err == nil && n == len(b), "the reported size is the encoded length")
	if c, ok := any(&v).(beserial.Marshaler); ok {
		n, err = c.SizeBESerial()
		sym.Assert(err == nil && n == len(b), "the codec's own size is the encoded length")
	}
}

// C03_Loose: values that no decoder produces.
func C03_Loose() {
	bits := func() wire.BitSet {
		return wire.BitSet{Len: sym.U8("len"), Bits: sym.Bytes("bits", sym.Choose("n", 4))}
	}
	hs := func() [][32]byte { return make([][32]byte, sym.Choose("hashes", 4)) }
	il := func() wire.BlockInterlink {
		return wire.BlockInterlink{Repeats: bits(), Compressed: hs(), Hashes: make([]*[32]byte, sym.Choose("ptrs", 3))}
	}
	na := func() wire.NetAddress {
		return wire.NetAddress{Type: sym.U8("type"), IP: sym.Bytes("ip", []int{0, 1, 4, 5, 16, 17}[sym.Choose("ip", 6)])}
	}
	switch sym.Choose("kind", 8) {
	case 0:
		loose(bits())
	case 1:
		loose(wire.MerklePath{Branches: bits(), Hashes: hs()})
	case 2:
		loose(wire.SignatureProof{MerklePath: wire.MerklePath{Branches: bits(), Hashes: hs()}})
	case 3:
		loose(il())
	case 4:
		loose(na())
	case 5:
		loose(wire.PeerAddress{PeerAddressHeader: wire.PeerAddressHeader{NetAddress: na()}})
	case 6:
		loose(wire.Block{Interlink: il()})
	case 7:
		loose(wire.PeerAddress{PeerAddressHeader: wire.PeerAddressHeader{Protocol: sym.U8("proto")},
			Detail: &wire.PeerAddressSrv{Host: string(sym.Bytes("host", sym.Choose("h", 3))), Port: sym.U16("port"), TLS: sym.Bool("tls")}})
	}
}

// C03_Long covers lengths around the limits of a length byte.
func C03_Long() {
	type s struct {
		A []byte   `beserial:"len_tag=uint8"`
		B string   `beserial:"len_tag=uint16"`
		C []uint32 `beserial:"len_tag=uint16"`
		D []cvar   `beserial:"len_tag=uint32"`
	}
	n := []int{127, 128, 255, 256, 257, 1000}[sym.Choose("n", 6)]
	v := s{make([]byte, min(n, 255)), string(make([]byte, n)), make([]uint32, n), make([]cvar, 3)}
	v.D[1] = cvar(sym.U16("d"))
	want := 1 + len(v.A) + 2 + n + 2 + 4*n + 4 + 2 + int(sym.Ite(v.D[1] < 0xF0, 1, 3))
	k, err := beserial.Size(&v)
	sym.Assert(err == nil && k == want, "the reported size is the encoded length")
	b, err := beserial.Marshal(nil, &v)
	sym.Assert(err == nil && len(b) == want, "the encoding has the reported size")
}

func C03_Messages() {
	m := msgs()
	m[sym.Choose("msg", len(m))].size()
}
