package props

import (
	"terorie.dev/nimiq/beserial"
	"verif/harness/sym"
)

// anyInput decodes arbitrary bytes and compares with the reference decoder.
func anyInput[T any](r R[T], lo, hi int) {
	n := sym.Range("len", lo, hi)
	sym.Bound("input bytes", itoa(lo)+".."+itoa(hi))
	bytesAgree(r, sym.Bytes("b", n), max(n, 16))
}

// anyWire does the same for types whose codecs allocate by a count byte.
func anyWire[T any](r R[T], lo, hi int) {
	sym.Bound("input bytes", itoa(lo)+".."+itoa(hi))
	bytesAgree(r, sym.Bytes("b", sym.Range("len", lo, hi)), 256)
}

// sizes does the same for chosen input lengths.
func sizes[T any](r R[T], lens ...int) {
	text := ""
	for _, n := range lens {
		text += " " + itoa(n)
	}
	sym.Bound("input bytes", text)
	bytesAgree(r, sym.Bytes("b", lens[sym.Choose("len", len(lens))]), 256)
}

// bytesAgree decodes b.
func bytesAgree[T any](r R[T], b []byte, limit int) {
	n := len(b)
	sym.AllocLimit(limit)
	in := dup(b)
	var out T
	k, err := beserial.Unmarshal(in, &out)
	sym.Assert(k >= 0 && k <= n, "consumed at most the input")
	sym.AllocLimit(-1)
	sym.Assert(sym.EqBytes(in, b), "the input is left alone")
	want, rest, ok := r.dec(b)
	if ok {
		sym.Reach("accepted")
		sym.Assert(err == nil, "valid input is accepted")
	} else {
		sym.Reach("rejected")
		sym.Assert(err != nil, "invalid input is rejected")
	}
	sym.Observe("ok", sym.Ite(ok, 1, 0))
	var full T
	ferr := beserial.UnmarshalFull(in, &full)
	sym.Assert((ferr == nil) == (ok && len(rest) == 0), "the full-buffer variant rejects leftovers and nothing else")
	if !ok {
		return
	}
	sym.Assert(k == n-len(rest), "exactly the value's bytes are consumed")
	sym.Assert(r.eq(out, want), "the decoded value is what the bytes denote")
	enc, err := beserial.Marshal(nil, &out)
	sym.Assert(err == nil, "the decoded value encodes")
	sym.Assert(sym.EqBytes(enc, b[:k]), "it encodes to the bytes consumed")
	sym.ObserveBytes("enc", enc)
	// No aliasing.
	for i := range in {
		in[i] = ^in[i]
	}
	elsewhere[T]()
	sym.Assert(r.eq(out, want), "the decoded value does not alias the input")
}

func itoa(n int) string {
	if n == 0 {
		return "0"
	}
	s := ""
	for ; n > 0; n /= 10 {
		s = string(rune('0'+n%10)) + s
	}
	return s
}

func deep(q, t int) int {
	if sym.Thorough() {
		return t
	}
	return q
}

func C02_Ints()      { anyInput(rInts(), 28, 33) }
func C02_IntsShort() { anyInput(rInts(), 0, 12) }
func C02_Named()     { anyInput(rNamed(), 16, deep(28, 31)) }
func C02_Lengths()   { anyInput(rLens(0), 0, deep(20, 23)) }
func C02_Strings()   { anyInput(rLens2(0), 0, deep(13, 17)) }
func C02_Nested()    { anyInput(rNest(), 0, deep(16, 20)) }
func C02_Arrays()    { anyInput(rArr(), 30, 39) }
func C02_Optional()  { anyInput(rOptT(), 0, deep(18, 21)) }
func C02_Optional2() { anyInput(rOpt2(), 0, deep(14, 17)) }
func C02_Custom()    { anyInput(rTCust(), 8, deep(28, 33)) }
func C02_CustomVar() { anyInput(rTCvar(), 0, deep(12, 15)) }
func C02_CustomByte() {
	anyInput(rTCbyte(), 0, deep(15, 19))
}
func C02_Staking()  { sizes(rStaking(), 0, 95, 96, 97, 116, 117, 144, 145, 146, 164, 165, 166) }
func C02_Pointers() { anyInput(rPtrs(), 0, deep(16, 20)) }

// C02_Large: few bytes that announce many large elements.
func C02_Large() {
	type page [2048]uint16
	type rec struct {
		A [1024]uint32
		B bool
	}
	n := []int{17, 18, 40}[sym.Choose("len", 3)]
	b := sym.Bytes("b", n)
	sym.AllocLimit(n)
	var k int
	var err error
	var count uint64
	switch sym.Choose("type", 4) {
	case 0:
		var v struct {
			L []page `beserial:"len_tag=uint16"`
		}
		k, err = beserial.Unmarshal(b, &v)
		count = uint64(b[0])<<8 | uint64(b[1])
		sym.Assert(len(v.L) <= n, "no more elements than input bytes")
	case 1:
		var v struct {
			L []rec `beserial:"len_tag=uint32"`
		}
		k, err = beserial.Unmarshal(b, &v)
		count = uint64(b[0])<<24 | uint64(b[1])<<16 | uint64(b[2])<<8 | uint64(b[3])
		sym.Assert(len(v.L) <= n, "no more elements than input bytes")
	case 2:
		var v struct {
			L *[]page `beserial:"optional,len_tag=uint16"`
		}
		sym.Assume(b[0] == 1)
		k, err = beserial.Unmarshal(b, &v)
		count = uint64(b[1])<<8 | uint64(b[2])
		sym.Assert(v.L == nil || len(*v.L) <= n, "no more elements than input bytes")
	case 3:
		var v struct {
			L [][]page `beserial:"len_tag=uint8"`
		}
		sym.Assume(b[0] <= 1)
		k, err = beserial.Unmarshal(b, &v) // inner slices have no length prefix
		count = uint64(b[0])
		sym.Assert(len(v.L) <= n, "no more elements than input bytes")
	}
	sym.AllocLimit(-1)
	sym.Assert(k >= 0 && k <= n, "consumed at most the input")
	sym.Assert((err == nil) == (count == 0), "an element does not fit")
}

func C02_Toplevel() {
	switch sym.Choose("kind", 13) {
	case 0:
		anyInput(rU8(), 0, 3)
	case 1:
		anyInput(rU16(), 0, 4)
	case 2:
		anyInput(rU32(), 0, 6)
	case 3:
		anyInput(rU64(), 0, 10)
	case 4:
		anyInput(rI8(), 0, 3)
	case 5:
		anyInput(rI16(), 0, 4)
	case 6:
		anyInput(rI32(), 0, 6)
	case 7:
		anyInput(rI64(), 0, 10)
	case 8:
		anyInput(rBool(), 0, 3)
	case 9:
		anyInput(rCust(), 0, 6)
	case 10:
		anyInput(rCvar(), 0, 5)
	case 11:
		anyInput(rPtr(rU32()), 0, 6)
	case 12:
		anyInput(rStruct(raw("a", func(a *[5]byte) []byte { return a[:] })), 0, 7)
	}
}
