package props

// Reference codecs: generators, encoders, decoders and equality written from
// the documented format, composed without reflection.

import (
	"verif/harness/sym"
)

// R is a reference codec of T.
type R[T any] struct {
	gen func(n string) T
	enc func(b []byte, v T) []byte
	dec func(b []byte) (v T, rest []byte, ok bool)
	eq  func(a, b T) bool
}

func rU8() R[uint8] {
	return R[uint8]{
		gen: sym.U8,
		enc: func(b []byte, v uint8) []byte { return append(b, v) },
		dec: func(b []byte) (uint8, []byte, bool) {
			if len(b) < 1 {
				return 0, nil, false
			}
			return b[0], b[1:], true
		},
		eq: func(a, b uint8) bool { return a == b },
	}
}

func rU16() R[uint16] {
	return R[uint16]{
		gen: sym.U16,
		enc: func(b []byte, v uint16) []byte { return append(b, byte(v>>8), byte(v)) },
		dec: func(b []byte) (uint16, []byte, bool) {
			if len(b) < 2 {
				return 0, nil, false
			}
			return uint16(b[0])<<8 | uint16(b[1]), b[2:], true
		},
		eq: func(a, b uint16) bool { return a == b },
	}
}

func rU32() R[uint32] {
	return R[uint32]{
		gen: sym.U32,
		enc: func(b []byte, v uint32) []byte {
			return append(b, byte(v>>24), byte(v>>16), byte(v>>8), byte(v))
		},
		dec: func(b []byte) (v uint32, rest []byte, ok bool) {
			if len(b) < 4 {
				return 0, nil, false
			}
			for _, x := range b[:4] {
				v = v<<8 | uint32(x)
			}
			return v, b[4:], true
		},
		eq: func(a, b uint32) bool { return a == b },
	}
}

func rU64() R[uint64] {
	return R[uint64]{
		gen: sym.U64,
		enc: func(b []byte, v uint64) []byte {
			for s := 56; s >= 0; s -= 8 {
				b = append(b, byte(v>>uint(s)))
			}
			return b
		},
		dec: func(b []byte) (v uint64, rest []byte, ok bool) {
			if len(b) < 8 {
				return 0, nil, false
			}
			for _, x := range b[:8] {
				v = v<<8 | uint64(x)
			}
			return v, b[8:], true
		},
		eq: func(a, b uint64) bool { return a == b },
	}
}

// conv maps a codec to another type.
func conv[A, B any](r R[A], to func(A) B, from func(B) A) R[B] {
	return R[B]{
		gen: func(n string) B { return to(r.gen(n)) },
		enc: func(b []byte, v B) []byte { return r.enc(b, from(v)) },
		dec: func(b []byte) (B, []byte, bool) {
			v, rest, ok := r.dec(b)
			return to(v), rest, ok
		},
		eq: func(a, b B) bool { return r.eq(from(a), from(b)) },
	}
}

func rI8() R[int8] {
	return conv(rU8(), func(a uint8) int8 { return int8(a) }, func(b int8) uint8 { return uint8(b) })
}
func rI16() R[int16] {
	return conv(rU16(), func(a uint16) int16 { return int16(a) }, func(b int16) uint16 { return uint16(b) })
}
func rI32() R[int32] {
	return conv(rU32(), func(a uint32) int32 { return int32(a) }, func(b int32) uint32 { return uint32(b) })
}
func rI64() R[int64] {
	return conv(rU64(), func(a uint64) int64 { return int64(a) }, func(b int64) uint64 { return uint64(b) })
}

func rBool() R[bool] {
	return R[bool]{
		gen: sym.Bool,
		enc: func(b []byte, v bool) []byte { return append(b, byte(sym.Ite(v, 1, 0))) },
		dec: func(b []byte) (bool, []byte, bool) {
			if len(b) < 1 || b[0] > 1 {
				return false, nil, false
			}
			return b[0] == 1, b[1:], true
		},
		eq: func(a, b bool) bool { return a == b },
	}
}

// rLen reads and writes a length prefix of w bytes.
func putLen(b []byte, w, n int) []byte {
	for i := w - 1; i >= 0; i-- {
		b = append(b, byte(uint64(n)>>uint(8*i)))
	}
	return b
}

// getLen reads a length prefix, failing when it exceeds what is left.
func getLen(b []byte, w int) (n int, rest []byte, ok bool) {
	if len(b) < w {
		return 0, nil, false
	}
	var u uint64
	for _, x := range b[:w] {
		u = u<<8 | uint64(x)
	}
	if u > uint64(len(b)-w) {
		return 0, nil, false
	}
	return int(sym.Concretize(u)), b[w:], true
}

func rSlice[E any](w, max int, e R[E]) R[[]E] {
	return R[[]E]{
		gen: func(n string) []E {
			v := make([]E, sym.Choose(n+".len", max+1))
			for i := range v {
				v[i] = e.gen(n)
			}
			return v
		},
		enc: func(b []byte, v []E) []byte {
			b = putLen(b, w, len(v))
			for _, x := range v {
				b = e.enc(b, x)
			}
			return b
		},
		dec: func(b []byte) ([]E, []byte, bool) {
			n, b, ok := getLen(b, w)
			if !ok {
				return nil, nil, false
			}
			v := make([]E, n)
			for i := range v {
				if v[i], b, ok = e.dec(b); !ok {
					return nil, nil, false
				}
			}
			return v, b, true
		},
		eq: func(a, b []E) bool {
			if len(a) != len(b) {
				return false
			}
			eq := true
			for i := range a {
				eq = sym.And(eq, e.eq(a[i], b[i]))
			}
			return eq
		},
	}
}

func rBytes(w, max int) R[[]byte] { return rSlice(w, max, rU8()) }

func rString(w, max int) R[string] {
	return conv(rBytes(w, max), func(a []byte) string { return string(a) }, func(b string) []byte { return []byte(b) })
}

// rPtr is a pointer that is always set.
func rPtr[E any](e R[E]) R[*E] {
	return R[*E]{
		gen: func(n string) *E { v := e.gen(n); return &v },
		enc: func(b []byte, v *E) []byte { return e.enc(b, *v) },
		dec: func(b []byte) (*E, []byte, bool) {
			v, b, ok := e.dec(b)
			if !ok {
				return nil, nil, false
			}
			return &v, b, true
		},
		eq: func(a, b *E) bool { return a != nil && b != nil && e.eq(*a, *b) },
	}
}

// rOpt is an optional pointer.
func rOpt[E any](e R[E]) R[*E] {
	return R[*E]{
		gen: func(n string) *E {
			if sym.Choose(n+".set", 2) == 0 {
				return nil
			}
			v := e.gen(n)
			return &v
		},
		enc: func(b []byte, v *E) []byte {
			if v == nil {
				return append(b, 0)
			}
			return e.enc(append(b, 1), *v)
		},
		dec: func(b []byte) (*E, []byte, bool) {
			if len(b) < 1 || b[0] > 1 {
				return nil, nil, false
			}
			if b[0] == 0 {
				return nil, b[1:], true
			}
			v, b, ok := e.dec(b[1:])
			if !ok {
				return nil, nil, false
			}
			return &v, b, true
		},
		eq: func(a, b *E) bool {
			if a == nil || b == nil {
				return a == nil && b == nil
			}
			return e.eq(*a, *b)
		},
	}
}

// rStruct composes a codec from the fields of S, in order.
func rStruct[S any](fs ...field[S]) R[S] {
	return R[S]{
		gen: func(n string) (s S) {
			for _, f := range fs {
				f.gen(n, &s)
			}
			return
		},
		enc: func(b []byte, v S) []byte {
			for _, f := range fs {
				b = f.enc(b, &v)
			}
			return b
		},
		dec: func(b []byte) (s S, rest []byte, ok bool) {
			for _, f := range fs {
				if b, ok = f.dec(b, &s); !ok {
					return s, nil, false
				}
			}
			return s, b, true
		},
		eq: func(a, b S) bool {
			eq := true
			for _, f := range fs {
				eq = sym.And(eq, f.eq(&a, &b))
			}
			return eq
		},
	}
}

type field[S any] struct {
	gen func(n string, s *S)
	enc func(b []byte, s *S) []byte
	dec func(b []byte, s *S) ([]byte, bool)
	eq  func(a, b *S) bool
}

// fld is one field.
func fld[S, F any](name string, at func(*S) *F, r R[F]) field[S] {
	return field[S]{
		gen: func(n string, s *S) { *at(s) = r.gen(n + "." + name) },
		enc: func(b []byte, s *S) []byte { return r.enc(b, *at(s)) },
		dec: func(b []byte, s *S) ([]byte, bool) {
			v, rest, ok := r.dec(b)
			*at(s) = v
			return rest, ok
		},
		eq: func(a, b *S) bool { return r.eq(*at(a), *at(b)) },
	}
}

// each is a fixed-size array, seen as a slice.
func each[S, E any](name string, at func(*S) []E, e R[E]) field[S] {
	return field[S]{
		gen: func(n string, s *S) {
			for i := range at(s) {
				at(s)[i] = e.gen(n + "." + name)
			}
		},
		enc: func(b []byte, s *S) []byte {
			for _, x := range at(s) {
				b = e.enc(b, x)
			}
			return b
		},
		dec: func(b []byte, s *S) (rest []byte, ok bool) {
			for i := range at(s) {
				if at(s)[i], b, ok = e.dec(b); !ok {
					return nil, false
				}
			}
			return b, true
		},
		eq: func(a, b *S) bool {
			eq := true
			for i := range at(a) {
				eq = sym.And(eq, e.eq(at(a)[i], at(b)[i]))
			}
			return eq
		},
	}
}

// raw is a fixed-size byte array.
func raw[S any](name string, at func(*S) []byte) field[S] {
	return field[S]{
		gen: func(n string, s *S) { sym.Fill(n+"."+name, at(s)) },
		enc: func(b []byte, s *S) []byte { return append(b, at(s)...) },
		dec: func(b []byte, s *S) ([]byte, bool) {
			if len(b) < len(at(s)) {
				return nil, false
			}
			return b[copy(at(s), b):], true
		},
		eq: func(a, b *S) bool { return sym.EqBytes(at(a), at(b)) },
	}
}

func dup(b []byte) []byte { return append([]byte(nil), b...) }
