package props

import (
	"math/big"

	"terorie.dev/nimiq/beserial"
	"terorie.dev/nimiq/policy"
	"terorie.dev/nimiq/wire"
	"verif/harness/sym"
)

func unmarshalAny(b []byte, v any) error {
	_, err := beserial.Unmarshal(b, v)
	return err
}

// positive makes an arbitrary number of exactly n bytes.
func positive(name string, n int) ([]byte, big.Int) {
	b := sym.Bytes(name, n)
	if n > 0 {
		sym.Assume(b[0] != 0)
	}
	var x big.Int
	x.SetBytes(b)
	return b, x
}

// refCompact cuts the low bytes off.
func refCompact(b []byte) uint32 {
	if len(b) > 0 && b[0]&0x80 != 0 {
		b = append([]byte{0}, b...)
	}
	n := len(b)
	for len(b) < 3 {
		b = append(b, 0)
	}
	return uint32(n)<<24 | uint32(b[0])<<16 | uint32(b[1])<<8 | uint32(b[2])
}

// denoted is the number a compact form stands for, in 40 bytes.
func denoted(c uint32) (v [40]byte) {
	e := int(sym.Concretize(uint64(c >> 24)))
	for i, x := range []byte{byte(c >> 16), byte(c >> 8), byte(c)} {
		if at := e - 1 - i; at >= 0 {
			v[39-at] = x
		}
	}
	return
}

func wide(b []byte) (v [40]byte) {
	copy(v[40-len(b):], b)
	return
}

func leq(a, b []byte) bool { // big-endian, equal lengths
	le := true
	for i := len(a) - 1; i >= 0; i-- {
		le = sym.Or(a[i] < b[i], sym.And(a[i] == b[i], le))
	}
	return le
}

func C12_Compact() {
	n := sym.Choose("bytes", 34)
	b, x := positive("t", n)
	otherTargets()
	c := wire.TargetToCompact(x)
	sym.Observe("compact", uint64(c))
	sym.Assert(c&0x800000 == 0, "the mantissa's top bit is never set")
	sym.Assert(c == refCompact(b), "exponent and mantissa are the target's length and leading bytes")
	if n == 0 {
		return
	}
	// The denoted number and the next one bracket the target.
	lo, t := denoted(c), wide(b)
	sym.Assert(leq(lo[:], t[:]), "never more than the target")
	e := int(sym.Concretize(uint64(c >> 24)))
	if e <= 3 {
		sym.Assert(lo == t, "short targets are exact")
		return
	}
	sym.Assert(sym.EqBytes(lo[:40-(e-3)], t[:40-(e-3)]), "only low bytes are cut off")
	sym.Assert(leq(make([]byte, e-3), t[40-(e-3):]), "by less than one unit")
	var back big.Int
	back.SetBytes(b)
	sym.Assert(x.Cmp(&back) == 0, "the target is left alone")
}

// C12_Order: larger targets never get smaller compact forms.
func C12_Order() {
	n := sym.Range("n", 0, 33)
	m := n
	if sym.Choose("longer", 2) == 1 {
		m = n + 1 + sym.Choose("by", 2)
	}
	a, x := positive("a", n)
	b, y := positive("b", m)
	if n == m {
		sym.Assume(leq(a, b))
	}
	sym.Assert(wire.TargetToCompact(x) <= wire.TargetToCompact(y), "ordered like the targets")
}

func maxTarget() *big.Int { return new(big.Int).Lsh(big.NewInt(1), 240) }

func C12_Max() {
	sym.Assert(policy.BlockTargetMax.Cmp(maxTarget()) == 0, "the maximum target is 2^240")
	var one big.Int
	one.SetUint64(1)
	sym.Assert(wire.DifficultyToCompact(one) == 0x1f010000, "the compact form of the maximum target")
}

// C12_Difficulty: the target is the maximum divided by the difficulty.
func C12_Difficulty() {
	n := 1 + sym.Choose("bytes", 32)
	b, d := positive("d", n)
	otherTargets()
	got := wire.DifficultyToTarget(d)
	otherTargets()
	want := new(big.Int).Quo(maxTarget(), &d)
	sym.Assert(got.Cmp(want) == 0, "maximum target divided by the difficulty, rounded down")
	sym.Assert(got.Sign() >= 0, "never negative")
	c := wire.DifficultyToCompact(d)
	sym.Assert(c == refCompact(want.Bytes()), "the compact form of that target")
	sym.Assert(sym.EqBytes(d.Bytes(), b), "the difficulty is left alone")
	sym.Assert(policy.BlockTargetMax.Cmp(maxTarget()) == 0, "the maximum target is left alone")
}

// C12_Quotient pins the division down on chosen difficulties.
func C12_Quotient() {
	ds := []string{"1", "2", "3", "5", "7", "255", "256", "257", "1000", "65535", "65536", "65537", "4294967295", "4294967296",
		"18446744073709551615", "18446744073709551616", "18446744073709551617", "340282366920938463463374607431768211455",
		"1766847064778384329583297500742918515827483896875618958121606201292619775",
		"1766847064778384329583297500742918515827483896875618958121606201292619776",
		"1766847064778384329583297500742918515827483896875618958121606201292619777",
		"883423532389192164791648750371459257913741948437809479060803100646309888",
		"883423532389192164791648750371459257913741948437809479060803100646309889"}
	var d big.Int
	d.SetString(ds[sym.Choose("d", len(ds))], 10)
	t := wire.DifficultyToTarget(d)
	low := new(big.Int).Mul(&t, &d)
	sym.Assert(low.Cmp(maxTarget()) <= 0, "target times difficulty is at most the maximum")
	sym.Assert(low.Add(low, &d).Cmp(maxTarget()) > 0, "and the next target's is more")
}

// C12_PowerOfTwo divides by every power of two.
func C12_PowerOfTwo() {
	k := sym.Choose("k", 242)
	d := new(big.Int).Lsh(big.NewInt(1), uint(k))
	t := wire.DifficultyToTarget(*d)
	want := new(big.Int).Rsh(maxTarget(), uint(k))
	sym.Assert(t.Cmp(want) == 0, "power of two")
	sym.Assert(wire.DifficultyToCompact(*d) == refCompact(want.Bytes()), "compact")
}
