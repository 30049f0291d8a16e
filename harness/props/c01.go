package props

import (
	"terorie.dev/nimiq/beserial"
	"verif/harness/sym"
)

// roundTrip: encode behind a prefix, compare with the documented layout, decode
// with a tail into a clean or used target.
func roundTrip[T any](r R[T]) {
	agrees(r, r.gen("v"))
}

func agrees[T any](r R[T], v T) {
	want := r.enc(nil, v)
	mode := sym.Choose("mode", 4) // prefix or not, spare capacity or not
	npre, spare := mode%2*2, mode/2*(len(want)+8)
	elsewhere[T]()
	pre := sym.Bytes("pre", npre)
	buf := make([]byte, npre, npre+spare)
	copy(buf, pre)
	if npre+spare == 0 {
		buf = nil
	}
	got, err := beserial.Marshal(buf, &v)
	sym.Assert(err == nil, "encoding succeeds")
	elsewhere[T]()
	sym.Assert(len(got) == npre+len(want), "encoding has the documented length")
	sym.Assert(sym.EqBytes(buf, pre), "the caller's bytes are left alone")
	sym.Assert(sym.EqBytes(got[:npre], pre), "the encoding is appended")
	sym.Assert(sym.EqBytes(got[npre:], want), "encoding has the documented layout")
	sym.ObserveBytes("enc", got)

	in := append(dup(got[npre:]), sym.Bytes("tail", []int{0, 2, 2, 0}[mode])...)
	var out T
	n, err := beserial.Unmarshal(in, &out)
	sym.Assert(err == nil, "decoding succeeds")
	sym.Assert(n == len(want), "exactly the encoding is consumed")
	elsewhere[T]()
	sym.Assert(r.eq(out, v), "the decoded value equals the original")
	sym.Observe("n", uint64(n))
	// Decode into the value again: leftovers of a used target must not matter.
	n, err = beserial.Unmarshal(in, &out)
	sym.Assert(err == nil && n == len(want), "decoding into a used target succeeds")
	sym.Assert(r.eq(out, v), "decoding into a used target equals the original")
}

// reuse decodes one value into a target holding another.
func reuse[T any](r R[T]) {
	v, out := r.gen("v"), r.gen("old")
	enc := r.enc(nil, v)
	n, err := beserial.Unmarshal(enc, &out)
	sym.Assert(err == nil && n == len(enc), "decoding into a used target succeeds")
	sym.Assert(r.eq(out, v), "decoding into a used target equals the original")
}

// leaves decodes two values into the same target, one after the other.
// What was copied from the target in between must stay as it was.
func leaves[T any](r R[T]) {
	a, b := r.gen("a"), r.gen("b")
	var out T
	_, err := beserial.Unmarshal(r.enc(nil, a), &out)
	sym.Assert(err == nil, "decodes")
	first := out
	_, err = beserial.Unmarshal(r.enc(nil, b), &out)
	sym.Assert(err == nil && r.eq(out, b), "decodes over another value")
	sym.Assert(r.eq(first, a), "values decoded earlier stay as they were")
}

func C01_Ints()    { roundTrip(rInts()) }
func C01_Named()   { roundTrip(rNamed()) }
func C01_Lengths() { roundTrip(rLens(2)) }
func C01_Strings() { roundTrip(rLens2(2)) }
func C01_Nested()  { roundTrip(rNest()) }
func C01_Arrays()  { roundTrip(rArr()) }
func C01_Optional() {
	roundTrip(rOptT())
}
func C01_Optional2() { roundTrip(rOpt2()) }
func C01_Custom()    { roundTrip(rTCust()) }
func C01_CustomVar() { roundTrip(rTCvar()) }
func C01_CustomByte() {
	roundTrip(rTCbyte())
}
func C01_Staking()  { roundTrip(rStaking()) }
func C01_Pointers() { roundTrip(rPtrs()) }

func C01_Toplevel() {
	switch sym.Choose("kind", 13) {
	case 0:
		roundTrip(rU8())
	case 1:
		roundTrip(rU16())
	case 2:
		roundTrip(rU32())
	case 3:
		roundTrip(rU64())
	case 4:
		roundTrip(rI8())
	case 5:
		roundTrip(rI16())
	case 6:
		roundTrip(rI32())
	case 7:
		roundTrip(rI64())
	case 8:
		roundTrip(rBool())
	case 9:
		roundTrip(rCust())
	case 10:
		roundTrip(rCvar())
	case 11:
		roundTrip(rPtr(rU32()))
	case 12:
		roundTrip(rStruct(raw("a", func(a *[5]byte) []byte { return a[:] })))
	}
}

func C01_Keeps() {
	switch sym.Choose("type", 4) {
	case 0:
		leaves(rLens(1))
	case 1:
		leaves(rOpt2())
	case 2:
		leaves(rTCvar())
	case 3:
		leaves(rTCbyte())
	}
}

func C01_Reuse() {
	switch sym.Choose("type", 4) {
	case 0:
		reuse(rLens(1))
	case 1:
		reuse(rOpt2())
	case 2:
		reuse(rTCvar())
	case 3:
		reuse(rTCbyte())
	}
}

// longer slices than one length byte's low values, contents symbolic at the ends
func C01_LongSlices() {
	type s struct {
		A []byte   `beserial:"len_tag=uint8"`
		B string   `beserial:"len_tag=uint16"`
		C []uint16 `beserial:"len_tag=uint16"`
	}
	n := []int{255, 254, 128, 256, 257, 300}[sym.Choose("n", 6)]
	var v s
	v.A = make([]byte, min(n, 255))
	v.A[0], v.A[len(v.A)-1] = sym.U8("a0"), sym.U8("a1")
	bs := make([]byte, n)
	bs[n-1] = sym.U8("b")
	v.B = string(bs)
	v.C = make([]uint16, n)
	v.C[n-1] = sym.U16("c")
	want := append(append([]byte{byte(len(v.A))}, v.A...), byte(n>>8), byte(n))
	want = append(append(want, v.B...), byte(n>>8), byte(n))
	for _, x := range v.C {
		want = append(want, byte(x>>8), byte(x))
	}
	got, err := beserial.Marshal(nil, &v)
	sym.Assert(err == nil, "encoding succeeds")
	sym.Assert(sym.EqBytes(got, want), "encoding has the documented layout")
	var out s
	k, err := beserial.Unmarshal(append(dup(got), 1, 2), &out)
	sym.Assert(err == nil && k == len(want), "exactly the encoding is consumed")
	sym.Assert(sym.EqBytes(out.A, v.A), "bytes equal")
	sym.Assert(sym.EqBytes([]byte(out.B), []byte(v.B)), "string equal")
	sym.Assert(len(out.C) == n && out.C[n-1] == v.C[n-1], "numbers equal")
	size, err := beserial.Size(&v)
	sym.Assert(err == nil && size == len(want), "size")
}
