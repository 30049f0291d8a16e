package props

import (
	"bytes"
	"math/big"

	"terorie.dev/nimiq/address"
	"terorie.dev/nimiq/beserial"
	"terorie.dev/nimiq/tree"
	"terorie.dev/nimiq/wire"
	"verif/harness/sym"
)

// The functions here use the library for something else before and after the calls
// a harness decides. Answers must not depend on it, and results already given must stay.

// elsewhere encodes, sizes and decodes other values, of the same type and others.
func elsewhere[T any]() {
	var zero, out T
	_, _ = beserial.Size(&zero)
	_, _ = beserial.Marshal(nil, &zero)
	_, _ = beserial.Unmarshal(bytes.Repeat([]byte{1}, 700), &out)
	_, _ = beserial.Size(&out)
	_, _ = beserial.Marshal(nil, &out)
	x := ^uint64(0)
	_, _ = beserial.Marshal(nil, &x)
}

const otherText = "NQ19 46LK 9YHV D9LB TDJ4 8Y2P 3J4C 37HR YDL5"

// otherAddresses encodes and decodes other addresses.
func otherAddresses() {
	a, err := address.Decode(otherText)
	sym.Assert(err == nil && address.Encode(&a) == otherText, "another address keeps its text")
	_, err = address.Decode("NQ20" + otherText[4:])
	sym.Assert(err != nil, "another address with wrong check digits is rejected")
}

// otherTargets converts other targets.
func otherTargets() {
	var d big.Int
	d.SetUint64(3)
	t := wire.DifficultyToTarget(d)
	sym.Assert(t.Cmp(new(big.Int).Quo(maxTarget(), &d)) == 0, "another difficulty keeps its target")
	sym.Assert(wire.TargetToCompact(t) == 0x1e555555, "another target keeps its compact form")
}

// otherTree is a tree with concrete contents that must not change.
type otherTree struct {
	t    *tree.PMTree
	hash [32]byte
}

func newOtherTree() *otherTree {
	o := &otherTree{t: &tree.PMTree{Store: tree.NewMemStore()}}
	k := baseKey()
	o.t.PutEntry(&k, []byte{7})
	k[19] ^= 1
	o.t.PutEntry(&k, []byte{8})
	o.hash = o.t.Hash()
	return o
}

func (o *otherTree) check() {
	k := baseKey()
	sym.Assert(sym.EqBytes(o.t.GetEntry(&k), []byte{7}), "another tree keeps its entries")
	sym.Assert(o.t.Hash() == o.hash, "another tree keeps its root hash")
}
