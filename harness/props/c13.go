package props

import (
	"terorie.dev/nimiq/tree"
	"terorie.dev/nimiq/wire"
	"verif/harness/sym"
)

// nibbleImpl is one of the two implementations.
type nibbleImpl struct {
	fromKey       func(*[20]byte) []byte
	toKey         func([]byte) [20]byte
	compress, hex func([]byte) []byte
	str           func([]byte) string
	common        func(a, b []byte) []byte
	prefix        func(a, b []byte) bool
}

var nibbleImpls = []nibbleImpl{
	{
		func(k *[20]byte) []byte { return tree.KeyToNibbles(k) },
		func(n []byte) [20]byte { return tree.Nibbles(n).ToKey() },
		func(n []byte) []byte { return tree.Nibbles(n).Compress() },
		func(n []byte) []byte { return tree.Nibbles(n).HexBytes() },
		func(n []byte) string { return tree.Nibbles(n).String() },
		func(a, b []byte) []byte { return tree.Nibbles(a).CommonPrefix(tree.Nibbles(b)) },
		func(a, b []byte) bool { return tree.Nibbles(a).PrefixOf(tree.Nibbles(b)) },
	},
	{
		func(k *[20]byte) []byte { return wire.KeyToNibbles(k) },
		func(n []byte) [20]byte { return wire.Nibbles(n).ToKey() },
		func(n []byte) []byte { return wire.Nibbles(n).Compress() },
		func(n []byte) []byte { return wire.Nibbles(n).HexBytes() },
		func(n []byte) string { return wire.Nibbles(n).String() },
		func(a, b []byte) []byte { return wire.Nibbles(a).CommonPrefix(wire.Nibbles(b)) },
		func(a, b []byte) bool { return wire.Nibbles(a).PrefixOf(wire.Nibbles(b)) },
	},
}

func impl() nibbleImpl { return nibbleImpls[sym.Choose("package", 2)] }

func arbNibbles(name string, n int) []byte {
	b := sym.Bytes(name, n)
	for _, x := range b {
		sym.Assume(x < 16)
	}
	return b
}

func C13_Key() {
	im := impl()
	var key [20]byte
	sym.Fill("key", key[:])
	k := key
	n := im.fromKey(&k)
	sym.Assert(k == key, "the key is left alone")
	sym.Assert(len(n) == 40, "40 nibbles")
	ok := true
	for i := range n {
		want := key[i/2] >> 4
		if i%2 == 1 {
			want = key[i/2] & 15
		}
		ok = sym.And(ok, n[i] == want)
	}
	sym.Assert(ok, "half-bytes in order")
	sym.Assert(im.toKey(n) == key, "collapsing gives the key back")
	sym.Assert(sym.EqBytes(im.compress(n), key[:]), "compressing gives the key's bytes")
	n[0] ^= 1
	sym.Assert(k == key, "nibbles do not alias the key")
}

func C13_ToKey() {
	im := impl()
	n := arbNibbles("n", 40)
	key := im.toKey(n)
	ok := true
	for i := range key {
		ok = sym.And(ok, key[i] == n[2*i]<<4|n[2*i+1])
	}
	sym.Assert(ok, "two nibbles per byte")
	sym.Assert(sym.EqBytes(im.fromKey(&key), n), "expanding gives the nibbles back")
}

func C13_Compress() {
	im := impl()
	n := sym.Choose("len", deep(12, 42))
	nb := arbNibbles("n", n)
	in := dup(nb)
	c := im.compress(in)
	sym.Assert(len(c) == (n+1)/2, "two nibbles per byte")
	ok := true
	for i := range c {
		want := nb[2*i] << 4
		if 2*i+1 < n {
			want |= nb[2*i+1]
		}
		ok = sym.And(ok, c[i] == want)
	}
	sym.Assert(ok, "packed in order, an odd one in the high half")
	sym.Assert(sym.EqBytes(in, nb), "the nibbles are left alone")
	sym.ObserveBytes("c", c)
}

func C13_CompressNil() {
	sym.Assert(len(impl().compress(nil)) == 0, "nothing compresses to nothing")
}

func C13_Hex() {
	im := impl()
	n := sym.Choose("len", deep(6, 41))
	nb := arbNibbles("n", n)
	in := dup(nb)
	h := im.hex(in)
	sym.Assert(len(h) == n, "one digit per nibble")
	ok := true
	for i := range h {
		ok = sym.And(ok, uint64(h[i]) == sym.Ite(nb[i] < 10, uint64(nb[i])+'0', uint64(nb[i])-10+'a'))
	}
	sym.Assert(ok, "lower-case hex digits")
	sym.Assert(im.str(in) == string(h), "the string is the same")
	sym.Assert(sym.EqBytes(in, nb), "the nibbles are left alone")
}

func C13_HexKey() {
	im := impl()
	var key [20]byte
	sym.Fill("key", key[:])
	h := im.hex(im.fromKey(&key))
	ok := len(h) == 40
	for i := range h {
		nb := key[i/2] >> 4
		if i%2 == 1 {
			nb = key[i/2] & 15
		}
		ok = sym.And(ok, uint64(h[i]) == sym.Ite(nb < 10, uint64(nb)+'0', uint64(nb)-10+'a'))
	}
	sym.Assert(ok, "hex digits of the key")
}

func refCommon(a, b []byte) int {
	k := 0
	for k < len(a) && k < len(b) && a[k] == b[k] {
		k++
	}
	return k
}

func C13_Prefix() {
	im := impl()
	max := deep(5, 9)
	a := arbNibbles("a", sym.Choose("alen", max))
	b := arbNibbles("b", sym.Choose("blen", max))
	a0, b0 := dup(a), dup(b)
	k := refCommon(a0, b0)
	c := im.common(a, b)
	sym.Assert(len(c) == k && sym.EqBytes(c, a0[:k]), "the longest list that is a prefix of both")
	c2 := im.common(b, a)
	sym.Assert(sym.EqBytes(c2, c), "in either order")
	sym.Assert(im.prefix(a, b) == (k == len(a)), "true exactly when the first starts the second")
	sym.Assert(im.prefix(c, a) && im.prefix(c, b), "the common prefix starts both")
	sym.Assert(sym.EqBytes(a, a0) && sym.EqBytes(b, b0), "the lists are left alone")
}

// C13_PrefixKeys compares full-length paths.
func C13_PrefixKeys() {
	im := impl()
	var x, y [20]byte
	sym.Fill("x", x[:])
	y = x
	i := sym.Choose("i", 20)
	y[i] = sym.U8("y")
	a, b := im.fromKey(&x), im.fromKey(&y)
	k := refCommon(a, b)
	sym.Assert(sym.EqBytes(im.common(a, b), a[:k]), "the longest common prefix of two keys")
	sym.Assert(im.prefix(a, b) == (x == y), "a key starts only itself")
	sym.Assert(im.prefix(a[:k], b), "the common part starts both")
}
