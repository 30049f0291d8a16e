package props

// The types the generic codec is exercised with.

import (
	"fmt"

	"terorie.dev/nimiq/beserial"
	"verif/harness/sym"
)

type tInts struct {
	U64 uint64
	I8  int8
	U32 uint32
	I16 int16
	U16 uint16
	I64 int64
	U8  uint8
	I32 int32
	B   bool
}

func rInts() R[tInts] {
	return rStruct(
		fld("U64", func(s *tInts) *uint64 { return &s.U64 }, rU64()),
		fld("I8", func(s *tInts) *int8 { return &s.I8 }, rI8()),
		fld("U32", func(s *tInts) *uint32 { return &s.U32 }, rU32()),
		fld("I16", func(s *tInts) *int16 { return &s.I16 }, rI16()),
		fld("U16", func(s *tInts) *uint16 { return &s.U16 }, rU16()),
		fld("I64", func(s *tInts) *int64 { return &s.I64 }, rI64()),
		fld("U8", func(s *tInts) *uint8 { return &s.U8 }, rU8()),
		fld("I32", func(s *tInts) *int32 { return &s.I32 }, rI32()),
		fld("B", func(s *tInts) *bool { return &s.B }, rBool()),
	)
}

// Named types of every number kind.
type (
	nU8  uint8
	nU16 uint16
	nU32 uint32
	nU64 uint64
	nI16 int16
	nB   bool
	nS   string
	nBs  []byte
	nU8s []nU8
)

func rNU8() R[nU8] {
	return conv(rU8(), func(a uint8) nU8 { return nU8(a) }, func(b nU8) uint8 { return uint8(b) })
}

type tNamed struct {
	A nU8
	B nU16
	C nU32
	D nU64
	E nI16
	F nB
	G nS   `beserial:"len_tag=uint8"`
	H nBs  `beserial:"len_tag=uint16"`
	I nU8s `beserial:"len_tag=uint8"`
	J [3]nU8
}

func rNamed() R[tNamed] {
	return rStruct(
		fld("A", func(s *tNamed) *nU8 { return &s.A }, rNU8()),
		fld("B", func(s *tNamed) *nU16 { return &s.B }, conv(rU16(), func(a uint16) nU16 { return nU16(a) }, func(b nU16) uint16 { return uint16(b) })),
		fld("C", func(s *tNamed) *nU32 { return &s.C }, conv(rU32(), func(a uint32) nU32 { return nU32(a) }, func(b nU32) uint32 { return uint32(b) })),
		fld("D", func(s *tNamed) *nU64 { return &s.D }, conv(rU64(), func(a uint64) nU64 { return nU64(a) }, func(b nU64) uint64 { return uint64(b) })),
		fld("E", func(s *tNamed) *nI16 { return &s.E }, conv(rI16(), func(a int16) nI16 { return nI16(a) }, func(b nI16) int16 { return int16(b) })),
		fld("F", func(s *tNamed) *nB { return &s.F }, conv(rBool(), func(a bool) nB { return nB(a) }, func(b nB) bool { return bool(b) })),
		fld("G", func(s *tNamed) *nS { return &s.G }, conv(rString(1, 2), func(a string) nS { return nS(a) }, func(b nS) string { return string(b) })),
		fld("H", func(s *tNamed) *nBs { return &s.H }, conv(rBytes(2, 2), func(a []byte) nBs { return nBs(a) }, func(b nBs) []byte { return []byte(b) })),
		fld("I", func(s *tNamed) *nU8s { return &s.I }, conv(rSlice(1, 2, rNU8()), func(a []nU8) nU8s { return nU8s(a) }, func(b nU8s) []nU8 { return []nU8(b) })),
		each("J", func(s *tNamed) []nU8 { return s.J[:] }, rNU8()),
	)
}

type tLens struct {
	A []byte   `beserial:"len_tag=uint8"`
	B []uint16 `beserial:"len_tag=uint16"`
	C string   `beserial:"len_tag=uint32"`
	D []byte   `beserial:"len_tag=uint64"`
}

func rLens(max int) R[tLens] {
	return rStruct(
		fld("A", func(s *tLens) *[]byte { return &s.A }, rBytes(1, max)),
		fld("B", func(s *tLens) *[]uint16 { return &s.B }, rSlice(2, max, rU16())),
		fld("C", func(s *tLens) *string { return &s.C }, rString(4, max)),
		fld("D", func(s *tLens) *[]byte { return &s.D }, rBytes(8, max)),
	)
}

type tLens2 struct {
	A string  `beserial:"len_tag=uint8"`
	B string  `beserial:"len_tag=uint16"`
	C []bool  `beserial:"len_tag=uint8"`
	D []int32 `beserial:"len_tag=uint32"`
}

func rLens2(max int) R[tLens2] {
	return rStruct(
		fld("A", func(s *tLens2) *string { return &s.A }, rString(1, max)),
		fld("B", func(s *tLens2) *string { return &s.B }, rString(2, max)),
		fld("C", func(s *tLens2) *[]bool { return &s.C }, rSlice(1, max, rBool())),
		fld("D", func(s *tLens2) *[]int32 { return &s.D }, rSlice(4, max, rI32())),
	)
}

type tInner struct {
	X uint8
	Y []uint16 `beserial:"len_tag=uint8"`
}

func rInner(max int) R[tInner] {
	return rStruct(
		fld("X", func(s *tInner) *uint8 { return &s.X }, rU8()),
		fld("Y", func(s *tInner) *[]uint16 { return &s.Y }, rSlice(1, max, rU16())),
	)
}

type tNest struct {
	A tInner
	B []tInner    `beserial:"len_tag=uint8"`
	C [][3]uint16 `beserial:"len_tag=uint16"`
	D [2]tInner
	tEmbed
}

type tEmbed struct{ E uint16 }

func rNest() R[tNest] {
	return rStruct(
		fld("A", func(s *tNest) *tInner { return &s.A }, rInner(1)),
		fld("B", func(s *tNest) *[]tInner { return &s.B }, rSlice(1, 2, rInner(1))),
		fld("C", func(s *tNest) *[][3]uint16 { return &s.C }, rSlice(2, 1, rStruct(each("c", func(a *[3]uint16) []uint16 { return a[:] }, rU16())))),
		each("D", func(s *tNest) []tInner { return s.D[:] }, rInner(1)),
		fld("E", func(s *tNest) *uint16 { return &s.E }, rU16()),
	)
}

type tArr struct {
	A [4]byte
	B [3]uint16
	C [2]bool
	D [2][2]int16
	E [0]byte
	F [1]uint64
	G [2][3]byte
	H [2]tEmbed
}

func rArr() R[tArr] {
	i16 := rI16()
	return rStruct(
		raw("A", func(s *tArr) []byte { return s.A[:] }),
		each("B", func(s *tArr) []uint16 { return s.B[:] }, rU16()),
		each("C", func(s *tArr) []bool { return s.C[:] }, rBool()),
		each("D0", func(s *tArr) []int16 { return s.D[0][:] }, i16),
		each("D1", func(s *tArr) []int16 { return s.D[1][:] }, i16),
		each("F", func(s *tArr) []uint64 { return s.F[:] }, rU64()),
		raw("G0", func(s *tArr) []byte { return s.G[0][:] }),
		raw("G1", func(s *tArr) []byte { return s.G[1][:] }),
		fld("H0", func(s *tArr) *uint16 { return &s.H[0].E }, rU16()),
		fld("H1", func(s *tArr) *uint16 { return &s.H[1].E }, rU16()),
	)
}

type tOpt struct {
	A *uint8  `beserial:"optional"`
	B *uint32 // required
	C *tInner `beserial:"optional"`
	D *[]byte `beserial:"optional,len_tag=uint8"`
	E *string `beserial:"len_tag=uint16,optional"`
	F *tInner
}

func rOptT() R[tOpt] {
	return rStruct(
		fld("A", func(s *tOpt) **uint8 { return &s.A }, rOpt(rU8())),
		fld("B", func(s *tOpt) **uint32 { return &s.B }, rPtr(rU32())),
		fld("C", func(s *tOpt) **tInner { return &s.C }, rOpt(rInner(1))),
		fld("D", func(s *tOpt) **[]byte { return &s.D }, rOpt(rBytes(1, 1))),
		fld("E", func(s *tOpt) **string { return &s.E }, rOpt(rString(2, 1))),
		fld("F", func(s *tOpt) **tInner { return &s.F }, rPtr(rInner(1))),
	)
}

type tOpt2 struct {
	A *[3]byte `beserial:"optional"`
	B *tOptIn  `beserial:"optional"`
	C *bool    `beserial:"optional"`
	D *[2]byte
}

type tOptIn struct {
	P *int16  `beserial:"optional"`
	Q *[]byte `beserial:"len_tag=uint8"`
}

func rOpt2() R[tOpt2] {
	in := rStruct(
		fld("P", func(s *tOptIn) **int16 { return &s.P }, rOpt(rI16())),
		fld("Q", func(s *tOptIn) **[]byte { return &s.Q }, rPtr(rBytes(1, 1))),
	)
	return rStruct(
		fld("A", func(s *tOpt2) **[3]byte { return &s.A }, rOpt(rStruct(raw("a", func(a *[3]byte) []byte { return a[:] })))),
		fld("B", func(s *tOpt2) **tOptIn { return &s.B }, rOpt(in)),
		fld("C", func(s *tOpt2) **bool { return &s.C }, rOpt(rBool())),
		fld("D", func(s *tOpt2) **[2]byte { return &s.D }, rPtr(rStruct(raw("d", func(a *[2]byte) []byte { return a[:] })))),
	)
}

// cust has a fixed-size custom codec with pointer receivers: Y, X, marker.
type cust struct {
	X uint8
	Y uint16
}

func (c *cust) UnmarshalBESerial(b []byte) (int, error) {
	if len(b) < 4 {
		return 0, beserial.ErrUnexpectedEOF
	}
	if b[3] != 0x7E {
		return 0, fmt.Errorf("bad marker")
	}
	c.Y = uint16(b[0])<<8 | uint16(b[1])
	c.X = b[2]
	return 4, nil
}

func (c *cust) MarshalBESerial(b []byte) ([]byte, error) {
	return append(b, byte(c.Y>>8), byte(c.Y), c.X, 0x7E), nil
}

func (c *cust) SizeBESerial() (int, error) { return 4, nil }

func rCust() R[cust] {
	return R[cust]{
		gen: func(n string) cust { return cust{sym.U8(n + ".X"), sym.U16(n + ".Y")} },
		enc: func(b []byte, v cust) []byte { return append(b, byte(v.Y>>8), byte(v.Y), v.X, 0x7E) },
		dec: func(b []byte) (cust, []byte, bool) {
			if len(b) < 4 || b[3] != 0x7E {
				return cust{}, nil, false
			}
			return cust{b[2], uint16(b[0])<<8 | uint16(b[1])}, b[4:], true
		},
		eq: func(a, b cust) bool { return sym.And(a.X == b.X, a.Y == b.Y) },
	}
}

// cvar has a custom codec of variable length, with value receivers where
// possible: one byte below 0xF0, otherwise a marker and two bytes.
type cvar uint16

func (c *cvar) UnmarshalBESerial(b []byte) (int, error) {
	if len(b) < 1 {
		return 0, beserial.ErrUnexpectedEOF
	}
	if b[0] < 0xF0 {
		*c = cvar(b[0])
		return 1, nil
	}
	if len(b) < 3 {
		return 0, beserial.ErrUnexpectedEOF
	}
	v := uint16(b[1])<<8 | uint16(b[2])
	if b[0] != 0xF0 || v < 0xF0 {
		return 0, fmt.Errorf("not canonical")
	}
	*c = cvar(v)
	return 3, nil
}

func (c cvar) MarshalBESerial(b []byte) ([]byte, error) {
	if c < 0xF0 {
		return append(b, byte(c)), nil
	}
	return append(b, 0xF0, byte(c>>8), byte(c)), nil
}

func (c cvar) SizeBESerial() (int, error) {
	if c < 0xF0 {
		return 1, nil
	}
	return 3, nil
}

func rCvar() R[cvar] {
	return R[cvar]{
		gen: func(n string) cvar { return cvar(sym.U16(n)) },
		enc: func(b []byte, v cvar) []byte {
			if v < 0xF0 {
				return append(b, byte(v))
			}
			return append(b, 0xF0, byte(v>>8), byte(v))
		},
		dec: func(b []byte) (cvar, []byte, bool) {
			if len(b) >= 1 && b[0] < 0xF0 {
				return cvar(b[0]), b[1:], true
			}
			if len(b) < 3 || b[0] != 0xF0 || uint16(b[1])<<8|uint16(b[2]) < 0xF0 {
				return 0, nil, false
			}
			return cvar(uint16(b[1])<<8 | uint16(b[2])), b[3:], true
		},
		eq: func(a, b cvar) bool { return a == b },
	}
}

// cbyte is a byte with a two-byte custom codec.
type cbyte uint8

func (c *cbyte) UnmarshalBESerial(b []byte) (int, error) {
	if len(b) < 2 {
		return 0, beserial.ErrUnexpectedEOF
	}
	if b[0]^b[1] != 0xFF {
		return 0, fmt.Errorf("bad check byte")
	}
	*c = cbyte(b[0])
	return 2, nil
}

func (c *cbyte) MarshalBESerial(b []byte) ([]byte, error) {
	return append(b, byte(*c), ^byte(*c)), nil
}

func (c *cbyte) SizeBESerial() (int, error) { return 2, nil }

func rCbyte() R[cbyte] {
	return R[cbyte]{
		gen: func(n string) cbyte { return cbyte(sym.U8(n)) },
		enc: func(b []byte, v cbyte) []byte { return append(b, byte(v), ^byte(v)) },
		dec: func(b []byte) (cbyte, []byte, bool) {
			if len(b) < 2 || b[0]^b[1] != 0xFF {
				return 0, nil, false
			}
			return cbyte(b[0]), b[2:], true
		},
		eq: func(a, b cbyte) bool { return a == b },
	}
}

type tCust struct {
	A cust
	B *cust  `beserial:"optional"`
	C []cust `beserial:"len_tag=uint8"`
	D *cust
	E [2]cust
}

func rTCust() R[tCust] {
	return rStruct(
		fld("A", func(s *tCust) *cust { return &s.A }, rCust()),
		fld("B", func(s *tCust) **cust { return &s.B }, rOpt(rCust())),
		fld("C", func(s *tCust) *[]cust { return &s.C }, rSlice(1, 2, rCust())),
		fld("D", func(s *tCust) **cust { return &s.D }, rPtr(rCust())),
		each("E", func(s *tCust) []cust { return s.E[:] }, rCust()),
	)
}

type tCvar struct {
	A cvar
	B *cvar  `beserial:"optional"`
	C []cvar `beserial:"len_tag=uint16"`
	D struct{ X cvar }
}

func rTCvar() R[tCvar] {
	return rStruct(
		fld("A", func(s *tCvar) *cvar { return &s.A }, rCvar()),
		fld("B", func(s *tCvar) **cvar { return &s.B }, rOpt(rCvar())),
		fld("C", func(s *tCvar) *[]cvar { return &s.C }, rSlice(2, 2, rCvar())),
		fld("D", func(s *tCvar) *cvar { return &s.D.X }, rCvar()),
	)
}

type tCbyte struct {
	A [2]cbyte
	B []cbyte  `beserial:"len_tag=uint8"`
	C *cbyte   `beserial:"optional"`
	D []*cbyte `beserial:"len_tag=uint8"`
}

func rTCbyte() R[tCbyte] {
	return rStruct(
		each("A", func(s *tCbyte) []cbyte { return s.A[:] }, rCbyte()),
		fld("B", func(s *tCbyte) *[]cbyte { return &s.B }, rSlice(1, 2, rCbyte())),
		fld("C", func(s *tCbyte) **cbyte { return &s.C }, rOpt(rCbyte())),
		fld("D", func(s *tCbyte) *[]*cbyte { return &s.D }, rSlice(1, 2, rPtr(rCbyte()))),
	)
}

type tPtrs struct {
	A []*tInner `beserial:"len_tag=uint8"`
	B [2]*uint16
	C **uint8
}

func rPtrs() R[tPtrs] {
	return rStruct(
		fld("A", func(s *tPtrs) *[]*tInner { return &s.A }, rSlice(1, 2, rPtr(rInner(1)))),
		each("B", func(s *tPtrs) []*uint16 { return s.B[:] }, rPtr(rU16())),
		fld("C", func(s *tPtrs) ***uint8 { return &s.C }, rPtr(rPtr(rU8()))),
	)
}
