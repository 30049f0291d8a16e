// Package sym is the interface between the property harnesses and whatever
// runs them. The symbolic engine replaces the functions below by operations on
// symbolic values; the native bodies replay one concrete case.
package sym

import "fmt"

// Input is one recorded input value.
type Input struct {
	N string `json:"n"`
	V uint64 `json:"v"`
}

// Obs is one observed value.
type Obs struct {
	L string `json:"l"`
	V uint64 `json:"v"`
}

// Stop ends a native run.
type Stop struct {
	Status, Label string
}

// State of the native run.
var (
	inputs     []Input
	next       int
	Seen       []Obs
	Reached    map[string]bool
	IsThorough bool
	AllocMax   int
)

// Start prepares a native run.
func Start(in []Input) {
	inputs, next, Seen, Reached = in, 0, nil, map[string]bool{}
	AllocMax = 0
}

func take(name string) uint64 {
	if next >= len(inputs) {
		panic(Stop{"error", "out of recorded inputs at " + name})
	}
	v := inputs[next]
	next++
	return v.V
}

// Below is an arbitrary number in 0..n-1, for a constant n from 2 to 256.
func Below(name string, n int) uint8 {
	v := take(name)
	if v >= uint64(n) {
		panic(Stop{"assume", ""})
	}
	return uint8(v)
}

// Bool is an arbitrary boolean.
func Bool(name string) bool { return take(name) != 0 }

// U8 is an arbitrary byte.
func U8(name string) uint8 { return uint8(take(name)) }

// U16 is an arbitrary 16-bit number.
func U16(name string) uint16 { return uint16(take(name)) }

// U32 is an arbitrary 32-bit number.
func U32(name string) uint32 { return uint32(take(name)) }

// U64 is an arbitrary 64-bit number.
func U64(name string) uint64 { return take(name) }

// Fill makes every byte of b arbitrary.
func Fill(name string, b []byte) {
	for i := range b {
		b[i] = byte(take(name))
	}
}

// Choose explores every value in 0..n-1 as a separate path.
func Choose(name string, n int) int {
	if n <= 0 {
		panic(Stop{"assume", ""})
	}
	return int(take(name))
}

// Assume restricts the exploration to c.
func Assume(c bool) {
	if !c {
		panic(Stop{"assume", ""})
	}
}

// Assert states the property.
func Assert(c bool, label string) {
	if !c {
		panic(Stop{"assert", label})
	}
}

// Reach records that a point of interest was reached.
func Reach(label string) { Reached[label] = true }

// Observe records a value for comparing symbolic and native runs.
func Observe(label string, v uint64) { Seen = append(Seen, Obs{label, v}) }

// ObserveBytes records bytes.
func ObserveBytes(label string, b []byte) {
	Seen = append(Seen, Obs{label + ".len", uint64(len(b))})
	for _, x := range b {
		Seen = append(Seen, Obs{label, uint64(x)})
	}
}

// And is a conjunction that does not fork.
func And(cs ...bool) bool {
	for _, c := range cs {
		if !c {
			return false
		}
	}
	return true
}

// Or is a disjunction that does not fork.
func Or(cs ...bool) bool {
	for _, c := range cs {
		if c {
			return true
		}
	}
	return false
}

// Implies is an implication that does not fork.
func Implies(a, b bool) bool { return !a || b }

// Ite is a conditional that does not fork.
func Ite(c bool, a, b uint64) uint64 {
	if c {
		return a
	}
	return b
}

// EqBytes compares without forking.
func EqBytes(a, b []byte) bool { return string(a) == string(b) }

// Concretize forks over the possible values of v.
func Concretize(v uint64) uint64 { return v }

// AllocLimit bounds the number of elements one allocation may have from here on.
func AllocLimit(n int) { AllocMax = n }

// Chain summarises calls f(state, from, to) of the named function: called with
// the state at from, which is init at 0, it returns the state at to.
func Chain(name string, init uint64) {}

// MapOrders makes map iteration try two orders.
func MapOrders() {}

// Thorough tells whether the deep tier runs.
func Thorough() bool { return IsThorough }

// Symbolic tells whether the symbolic engine runs.
func Symbolic() bool { return false }

// Bound documents a bound of the harness.
func Bound(what, value string) {}

// Context labels what follows in reports.
func Context(s string) {}

// Bytes makes n arbitrary bytes.
func Bytes(name string, n int) []byte {
	b := make([]byte, n)
	Fill(name, b)
	return b
}

// Range explores lo..hi.
func Range(name string, lo, hi int) int { return lo + Choose(name, hi-lo+1) }

// Panics reports whether f panics.
func Panics(f func()) (p bool) {
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(Stop); ok {
				panic(s)
			}
			p = true
		}
	}()
	f()
	return false
}

// NoPanic asserts that f does not panic.
func NoPanic(label string, f func()) {
	Assert(!Panics(f), label)
}

// B turns an error into "succeeded".
func B(err error) bool { return err == nil }

func unused() { fmt.Sprint() }
