package props

import (
	"terorie.dev/nimiq/beserial"
	"terorie.dev/nimiq/wire"
	"verif/harness/sym"
)

func refused[T any](v *T, label string) {
	b, err := beserial.Marshal([]byte{1, 2}, v)
	sym.Assert(err != nil, label)
	_ = b
}

func encodes[T any](v *T, n int, label string) {
	b, err := beserial.Marshal([]byte{1, 2}, v)
	sym.Assert(err == nil && len(b) == 2+n, label)
}

type nilIn struct {
	X uint8
	P *uint16
}

type nilDeep struct {
	A *uint8
	B nilIn
	C *nilIn
	D [2]*uint8
	E []*nilIn `beserial:"len_tag=uint8"`
	F *nilIn   `beserial:"optional"`
	G **uint8
	H []nilIn `beserial:"len_tag=uint16"`
	I *cust
}

// C04_Nil leaves out an arbitrary set of required pointers.
func C04_Nil() {
	any := false
	has := func(n string) bool {
		if sym.Bool(n) {
			return true
		}
		any = true
		return false
	}
	x, y := sym.U8("x"), sym.U16("y")
	in := func(n string) nilIn {
		v := nilIn{X: x}
		if has(n) {
			v.P = &y
		}
		return v
	}
	var v nilDeep
	if has("A") {
		v.A = &x
	}
	v.B = in("B.P")
	if has("C") {
		c := in("C.P")
		v.C = &c
	}
	v.D[0] = &x
	if has("D") {
		v.D[1] = &x
	}
	n := 1 + 3 + 3 + 2 + 1 + 1 + 1 + 2 + 4
	if k := sym.Choose("E", 3); k > 0 {
		e := in("E.P")
		v.E = []*nilIn{&e}
		n += 3
		if k == 2 {
			v.E = append(v.E, nil)
			any = true
		}
	}
	if sym.Bool("F") {
		f := in("F.P")
		v.F = &f
		n += 3
	}
	px := &x
	v.G = &px
	switch sym.Choose("G", 3) {
	case 1:
		px, any = nil, true
	case 2:
		v.G, any = nil, true
	}
	if sym.Bool("H") {
		v.H = []nilIn{in("H.P")}
		n += 3
	}
	if has("I") {
		v.I = &cust{x, y}
	}
	b, err := beserial.Marshal(nil, &v)
	sym.Assert((err != nil) == any, "an error exactly when a required pointer is nil")
	sym.Assert(any || len(b) == n, "complete encoding")
	_, err = beserial.Size(&v)
	sym.Assert((err != nil) == any, "no size either")
}

type over8 struct {
	A []byte   `beserial:"len_tag=uint8"`
	B string   `beserial:"len_tag=uint8"`
	C []uint16 `beserial:"len_tag=uint8"`
	D *[]byte  `beserial:"optional,len_tag=uint8"`
	E *string  `beserial:"len_tag=uint8"`
	F []nilIn  `beserial:"len_tag=uint8"`
	G nU8s     `beserial:"len_tag=uint8"`
	H nS       `beserial:"len_tag=uint8"`
}

func fill8(field, n int) (v over8) {
	var s string
	v.E = &s
	big := make([]byte, n)
	if n > 0 {
		big[0] = sym.U8("first")
	}
	switch field {
	case 0:
		v.A = big
	case 1:
		v.B = string(big)
	case 2:
		v.C = make([]uint16, n)
	case 3:
		v.D = &big
	case 4:
		s = string(big)
	case 5:
		v.F = make([]nilIn, n)
		y := sym.U16("y")
		for i := range v.F {
			v.F[i].P = &y
		}
	case 6:
		v.G = make(nU8s, n)
	case 7:
		v.H = nS(big)
	}
	return
}

var overLens = []int{0, 1, 2, 127, 128, 254, 255, 256, 257, 258, 383, 511, 512, 513, 65535, 65536, 65537}

// C04_Over8: lengths around what one byte can count.
func C04_Over8() {
	n := overLens[sym.Choose("n", deep(14, len(overLens)))]
	field := sym.Choose("field", 8)
	v := fill8(field, n)
	if n > 255 {
		refused(&v, "a length beyond one byte is reported")
		type outer struct {
			X uint8
			Y []over8 `beserial:"len_tag=uint8"`
			Z *over8
		}
		o := outer{Y: []over8{v}, Z: &v}
		refused(&o, "a length beyond one byte is reported at depth")
		return
	}
	size := []int{1, 1, 2, 1, 1, 3, 1, 1}[field]*n + 8
	if field == 3 {
		size++
	}
	encodes(&v, size, "a length of one byte encodes")
}

// C04_Over16: lengths around what two bytes can count.
func C04_Over16() {
	type s struct {
		A []byte `beserial:"len_tag=uint16"`
		B string `beserial:"len_tag=uint16"`
		C []bool `beserial:"len_tag=uint16"`
	}
	n := []int{256, 65534, 65535, 65536, 65537, 65792, 131071, 131072}[sym.Choose("n", 8)]
	var v s
	switch sym.Choose("field", deep(2, 3)) {
	case 0:
		v.A = make([]byte, n)
		v.A[n-1] = sym.U8("last")
	case 1:
		v.B = string(make([]byte, n))
	case 2:
		v.C = make([]bool, n)
	}
	if n > 65535 {
		refused(&v, "a length beyond two bytes is reported")
	} else {
		encodes(&v, n+6, "a length of two bytes encodes")
	}
}

// C04_Wire: the protocol's own types report what does not fit.
func C04_Wire() {
	n := []int{255, 256, 65535, 65536, 65791}[sym.Choose("n", 5)]
	long := make([]byte, n)
	long[0] = sym.U8("first")
	switch sym.Choose("type", 8) {
	case 0:
		v := wire.WrapTx{Tx: &wire.ExtendedTx{Data: long}}
		_, err := v.MarshalBESerial(nil)
		sym.Assert((err != nil) == (n > 65535), "transaction data")
	case 1:
		v := wire.WrapTx{Tx: &wire.ExtendedTx{Proof: long}}
		_, err := beserial.Marshal(nil, &v)
		sym.Assert((err != nil) == (n > 65535), "transaction proof")
	case 2:
		v := wire.Block{Body: &wire.BlockBody{ExtraData: long}}
		_, err := beserial.Marshal(nil, &v)
		sym.Assert((err != nil) == (n > 255), "extra data")
	case 3:
		v := wire.PeerAddress{Detail: &wire.PeerAddressSrv{Host: string(long)}}
		v.Protocol = wire.ProtocolWS
		v.NetAddress.Type = wire.NetAddressUnspecified
		_, err := beserial.Marshal(nil, &v)
		sym.Assert((err != nil) == (n > 255), "host name")
	case 4:
		v := wire.VersionMessage{UserAgent: string(long)}
		v.PeerAddress.NetAddress.Type = wire.NetAddressUnspecified
		_, err := wire.MarshalMessage(&v)
		sym.Assert((err != nil) == (n > 255), "user agent")
	case 5:
		v := wire.BlockBody{Txs: []wire.WrapTx{{Tx: &wire.BasicTx{}}, {}}}
		refused(&v, "missing transaction")
		w := wire.BlockBody{Pruned: []wire.AccountPruned{{}}}
		refused(&w, "missing account")
	case 6:
		v := wire.PeerAddress{}
		v.Protocol = []uint8{1, 4}[sym.Choose("proto", 2)]
		refused(&v, "missing server address")
	case 7:
		var t *wire.BasicTx
		v := wire.WrapTx{Tx: t}
		refused(&v, "nil transaction")
		var a *wire.HTLCAccount
		w := wire.WrapAccount{Account: a}
		refused(&w, "nil account")
	}
}

// C04_NoTag: slices and strings need a length prefix.
func C04_NoTag() {
	x := sym.Bytes("x", sym.Choose("n", 3))
	switch sym.Choose("where", 10) {
	case 0:
		refused(&x, "slice")
	case 1:
		s := string(x)
		refused(&s, "string")
	case 2:
		v := struct {
			A uint8
			B []byte
		}{B: x}
		refused(&v, "field")
	case 3:
		v := struct{ A string }{string(x)}
		refused(&v, "string field")
	case 4:
		v := struct {
			A *struct{ B []uint16 }
		}{&struct{ B []uint16 }{}}
		refused(&v, "behind a pointer")
	case 5:
		v := struct {
			A [][]byte `beserial:"len_tag=uint8"`
		}{[][]byte{x}}
		refused(&v, "inside a slice")
	case 6:
		v := [1]string{string(x)}
		refused(&v, "inside an array")
	case 7:
		v := struct {
			A *string `beserial:"optional"`
		}{}
		s := string(x)
		v.A = &s
		refused(&v, "optional string")
	case 8:
		v := struct {
			A []struct{ B string } `beserial:"len_tag=uint16"`
		}{[]struct{ B string }{{}}}
		refused(&v, "struct in a slice")
	case 9:
		p := &x
		refused(&p, "pointer to a slice")
	}
}

func unsupported[T any](v T) {
	switch sym.Choose("where", 7) {
	case 0:
		refused(&v, "plain")
	case 1:
		s := struct {
			A uint8
			B T
		}{sym.U8("a"), v}
		refused(&s, "field")
	case 2:
		s := struct{ P *T }{&v}
		refused(&s, "behind a pointer")
	case 3:
		s := struct {
			P *T `beserial:"optional"`
		}{&v}
		refused(&s, "behind an optional pointer")
	case 4:
		s := struct {
			L []T `beserial:"len_tag=uint8"`
		}{[]T{v}}
		refused(&s, "in a slice")
	case 5:
		s := [2]T{v, v}
		refused(&s, "in an array")
	case 6:
		s := []struct {
			L []struct{ V T } `beserial:"len_tag=uint8"`
		}{{[]struct{ V T }{{v}}}}
		refused(&s[0], "deep")
	}
}

// C04_Unsupported: kinds without an encoding.
func C04_Unsupported() {
	switch sym.Choose("kind", 11) {
	case 0:
		unsupported(int(sym.U64("i")))
	case 1:
		unsupported(uint(sym.U64("i")))
	case 2:
		unsupported(uintptr(1))
	case 3:
		unsupported(float32(1))
	case 4:
		unsupported(float64(2))
	case 5:
		unsupported(map[uint8]uint8{1: 2})
	case 6:
		unsupported(make(chan int))
	case 7:
		unsupported(func() {})
	case 8:
		unsupported(any(uint8(1)))
	case 9:
		unsupported(error(nil))
	case 10:
		unsupported(map[string]int(nil))
	}
}

func badTop(v any, label string) {
	b, err := beserial.Marshal([]byte{1}, v)
	sym.Assert(err != nil, label+" is no value to encode")
	_ = b
	in := sym.Bytes("in", sym.Choose("n", 3))
	_, err = beserial.Unmarshal(in, v)
	sym.Assert(err != nil, label+" is no target to decode into")
	sym.Assert(beserial.UnmarshalFull(in, v) != nil, label+" is no target to fully decode into")
	_, err = beserial.Size(v)
	sym.Assert(err != nil, label+" has no size")
}

// C04_Toplevel: everything that is not a non-nil pointer is reported.
func C04_Toplevel() {
	switch sym.Choose("arg", 20) {
	case 0:
		badTop(nil, "nil")
	case 1:
		badTop(uint8(3), "a number")
	case 2:
		badTop("text", "a string")
	case 3:
		badTop(tInts{}, "a struct")
	case 4:
		badTop((*tInts)(nil), "a nil pointer")
	case 5:
		badTop((*uint8)(nil), "a nil pointer to a number")
	case 6:
		badTop([]byte{1, 2}, "a slice")
	case 7:
		badTop([]byte(nil), "a nil slice")
	case 8:
		badTop([2]byte{}, "an array")
	case 9:
		badTop(map[int]int{}, "a map")
	case 10:
		badTop(map[int]int(nil), "a nil map")
	case 11:
		badTop(func() {}, "a function")
	case 12:
		badTop((func())(nil), "a nil function")
	case 13:
		badTop(make(chan int), "a channel")
	case 14:
		badTop((*wire.WrapTx)(nil), "a nil custom codec")
	case 15:
		badTop(wire.EmptyMessage(9), "a custom codec by value")
	case 16:
		badTop(true, "a boolean")
	case 17:
		badTop(1.5, "a float")
	case 18:
		badTop((*cust)(nil), "a nil custom codec pointer")
	case 19:
		badTop(cvar(3), "a custom codec value")
	}
}

// C04_NilInterface: a pointer to a nil pointer is not a value either.
func C04_NilPointer() {
	var p *uint16
	refused(&p, "a nil pointer behind a pointer")
	var q *cust
	refused(&q, "a nil pointer to a custom codec")
	var i any
	refused(&i, "a nil interface")
	var e error
	refused(&e, "a nil error")
	_, err := beserial.Size(&p)
	sym.Assert(err != nil, "a nil pointer has no size")
}

// parts checks that a value is encoded exactly when its parts fit together,
// alone and inside other values.
func parts[T any](v T, fit bool, want []byte, label string) {
	b, err := beserial.Marshal([]byte{7}, &v)
	sym.Assert((err == nil) == fit, label)
	n, serr := beserial.Size(&v)
	sym.Assert((serr == nil) == fit, label+" (size)")
	if fit {
		sym.Assert(sym.EqBytes(b, append([]byte{7}, want...)) && n == len(want), "complete encoding")
	}
	c := any(&v).(beserial.Marshaler)
	_, err = c.MarshalBESerial(nil)
	sym.Assert((err == nil) == fit, label+" (direct call)")
	_, err = c.SizeBESerial()
	sym.Assert((err == nil) == fit, label+" (direct size)")
	type box struct {
		A uint8
		L []T `beserial:"len_tag=uint8"`
		P *T  `beserial:"optional"`
	}
	for i, w := range []box{{L: []T{v}}, {P: &v}} {
		b, err = beserial.Marshal(nil, &w)
		sym.Assert((err == nil) == fit, label+" (nested)")
		if fit {
			in := append([]byte{0, 1 - byte(i)}, want...)
			if i == 0 {
				in = append(in, 0)
			} else {
				in = append([]byte{0, 0, 1}, want...)
			}
			sym.Assert(sym.EqBytes(b, in), "complete nested encoding")
		}
	}
}

func someHashes(n int) (hs [][32]byte, enc []byte) {
	for i := 0; i < n; i++ {
		h := rHash32().gen("hash")
		hs = append(hs, h)
		enc = append(enc, h[:]...)
	}
	return
}

// looseBits is a bit set of any length in any number of bytes.
func looseBits(max int) (s wire.BitSet, fit bool, enc []byte) {
	s.Len = uint8(sym.Choose("len", max+1))
	s.Bits = sym.Bytes("bits", sym.Choose("bytes", (max+7)/8+2))
	return s, len(s.Bits) == (int(s.Len)+7)/8, append([]byte{s.Len}, s.Bits...)
}

func C04_BitSet() {
	s, fit, enc := looseBits(deep(17, 33))
	parts(s, fit, enc, "a bit set is encoded exactly when its bytes hold its bits")
}

// C04_BitSetAny: every length against every number of bytes around the right one.
func C04_BitSetAny() {
	n, k := sym.U8("len"), sym.Choose("bytes", 34)
	s := wire.BitSet{Len: n, Bits: make([]byte, k)}
	_, err := beserial.Marshal(nil, &s)
	sym.Assert((err == nil) == ((int(n)+7)/8 == k), "a bit set is encoded exactly when its bytes hold its bits")
	_, err = beserial.Size(&s)
	sym.Assert((err == nil) == ((int(n)+7)/8 == k), "a bit set has a size exactly when its bytes hold its bits")
}

func C04_MerklePath() {
	s, fit, enc := looseBits(9)
	n := sym.Choose("nodes", 11)
	hs, tail := someHashes(n)
	p := wire.MerklePath{Branches: s, Hashes: hs}
	fit = fit && n == int(s.Len)
	parts(p, fit, append(enc, tail...), "a Merkle path is encoded exactly when it has one node per branch")
	if n < 4 {
		proof := wire.SignatureProof{MerklePath: p}
		_, err := beserial.Marshal(nil, &proof)
		sym.Assert((err == nil) == fit, "so is the proof it is part of")
	}
}

func C04_Interlink() {
	s, fit, enc := looseBits(deep(9, 12))
	n := sym.Choose("hashes", deep(4, 6))
	hs, tail := someHashes(n)
	unset := uint64(0)
	for i := 0; i < int(s.Len) && i/8 < len(s.Bits); i++ {
		unset += sym.Ite(s.Bits[i/8]&(0x80>>uint(i%8)) == 0, uint64(1), uint64(0))
	}
	fit = fit && unset == uint64(n)
	il := wire.BlockInterlink{Repeats: s, Compressed: hs}
	parts(il, fit, append(enc, tail...), "an interlink is encoded exactly when it has the hashes its repeat bits ask for")
}

// C04_IP: addresses of any kind with IPs of any length.
func C04_IP() {
	na := wire.NetAddress{Type: sym.U8("type")}
	n := []int{0, 1, 3, 4, 5, 15, 16, 17}[sym.Choose("n", 8)]
	na.IP = sym.Bytes("ip", n)
	mapped := false
	if n == 16 {
		mapped = true
		for i := 0; i < 10; i++ {
			mapped = sym.And(mapped, na.IP[i] == 0)
		}
		mapped = sym.And(mapped, sym.And(na.IP[10] == 0xff, na.IP[11] == 0xff))
	}
	enc := append([]byte{na.Type}, na.IP...)
	fit := false
	switch na.Type {
	case wire.NetAddressIPv4:
		fit = n == 4
		if mapped {
			// the form the net package keeps IPv4 addresses in
			fit, enc = true, append([]byte{0}, na.IP[12:]...)
		}
	case wire.NetAddressIPv6:
		fit = n == 16
	case wire.NetAddressUnspecified, wire.NetAddressUnknown:
		fit = n == 0
	}
	parts(na, fit, enc, "an address is encoded exactly when its IP fits its kind")
}

// C04_Detail: peer addresses with the detail of another protocol.
func C04_Detail() {
	p := rPeer(1).gen("p")
	p.Protocol = sym.U8("proto")
	srv := false
	switch sym.Choose("detail", 5) {
	case 0:
		p.Detail = nil
	case 1:
		d := rPeerSrv(1).gen("d")
		p.Detail, srv = &d, true
	case 2:
		p.Detail = (*wire.PeerAddressSrv)(nil)
	case 3:
		x := uint16(7)
		p.Detail = &x
	case 4:
		p.Detail = rPeerSrv(1).gen("d")
	}
	fit := sym.Or(sym.And(p.Protocol == 0, p.Detail == nil), sym.And(srv, sym.Or(p.Protocol == 1, p.Protocol == 4)))
	_, err := beserial.Marshal(nil, &p)
	sym.Assert((err == nil) == fit, "a peer address is encoded exactly when its detail fits its protocol")
	_, err = beserial.Size(&p)
	sym.Assert((err == nil) == fit, "and has a size then")
}
