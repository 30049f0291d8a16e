package props

import (
	"bytes"
	"strconv"

	"terorie.dev/nimiq/genesis"
	"terorie.dev/nimiq/wire"
	"verif/harness/sym"
)

// ---- C34 ----

// member is a file of a tar archive.
type member struct {
	name string
	kind byte
	data []byte
}

// archive is a tar archive (ustar) of the members.
func archive(ms []member) (out []byte) {
	for _, m := range ms {
		h := make([]byte, 512)
		copy(h, m.name)
		copy(h[100:], "0000644\x00")
		copy(h[108:], "0000000\x00")
		copy(h[116:], "0000000\x00")
		copy(h[124:], octal(len(m.data), 11))
		copy(h[136:], "00000000000\x00")
		copy(h[148:], "        ")
		h[156] = m.kind
		copy(h[257:], "ustar\x0000")
		sum := 0
		for _, c := range h {
			sum += int(c)
		}
		copy(h[148:], octal(sum, 6)+"\x00 ")
		out = append(append(out, h...), m.data...)
		for len(out)%512 != 0 {
			out = append(out, 0)
		}
	}
	return append(out, make([]byte, 1024)...)
}

func octal(n, digits int) string {
	b := make([]byte, digits)
	for i := digits - 1; i >= 0; i-- {
		b[i] = byte('0' + n&7)
		n >>= 3
	}
	return string(b)
}

// export is a genesis state and a block export on top of it.
type export struct {
	w      *world // the state the good blocks lead to
	files  []member
	ok     bool // whether all blocks so far apply
	blocks int
	txs    int
}

// start has two basic accounts (or a contract) and a genesis block.
func start(w *world) (x *export, p profile) {
	var list []genesis.Account
	for i, acc := range w.accs {
		if acc != nil {
			list = append(list, listed(w.addrs[i], owned(acc)))
		}
	}
	b := block(1, w.addrs[2])
	for i := range w.accs {
		w.put(i, w.accs[i])
	}
	after, ok := w.refPush(b)
	x = &export{w: after, ok: ok, files: []member{{"blocks/", '5', nil}}}
	if ok {
		b.Header.AccountsHash = refRootHash(after.entries())
	}
	p = smallest()
	p.block = rBlock(0, 0, 0, 0).enc(nil, *b)
	p.accounts = rSlice(2, 3, rListed()).enc(nil, list)
	return
}

// add appends a block with the state root it leads to, broken in a way given by how.
func (x *export) add(b *wire.Block, how int) {
	after, ok := x.w, false
	if x.ok {
		if after, ok = x.w.refPush(b); ok {
			b.Header.AccountsHash = refRootHash(after.entries())
			x.w = after
		}
	}
	switch how {
	case 1: // any state root
		right := b.Header.AccountsHash
		sym.Fill("root", b.Header.AccountsHash[:])
		ok = sym.And(ok, b.Header.AccountsHash == right)
	case 2: // without body
		b.Body, ok = nil, false
	}
	data := rBlock(0, 0, 0, 0).enc(nil, *b)
	switch how {
	case 3: // too short
		data, ok = data[:len(data)-1], false
	case 4: // too long
		data, ok = append(data, sym.U8("more")), false
	case 5:
		data, ok = nil, false
	}
	x.files = append(x.files, member{"blocks/" + strconv.Itoa(len(x.files)) + ".bin", '0', data})
	x.ok = sym.And(x.ok, ok)
	x.blocks++
	if b.Body != nil {
		x.txs += len(b.Body.Txs)
	}
}

// replays runs the command on the archive.
func replays(x *export, p profile, tar []byte, args ...string) {
	p.at("net", sym.File{Name: "blocks.tar", Data: tar})
	out, ok := sym.Command(append([]string{"-blocksPath", "blocks.tar", "-profile", "net"}, args...)...)
	sym.Assert(ok == x.ok, "replay succeeds exactly when every block applies and leads to its state root")
	if ok {
		sym.Reach("replayed")
		want := "Blocks: " + strconv.Itoa(x.blocks) + "\nTxs: " + strconv.Itoa(x.txs) + "\n"
		sym.Assert(bytes.Contains([]byte("\n"+out), []byte("\n"+want)), "and counts blocks and transactions")
	} else {
		sym.Reach("failed")
		sym.Assert(!bytes.Contains([]byte(out), []byte("Blocks: ")) && !bytes.Contains([]byte(out), []byte("Txs: ")), "no counts are reported after a failure")
	}
}

// C34_Blocks: blocks with transfers, any of them broken.
func C34_Blocks() {
	w := keyWorld(2, 1)
	w.basic("balance", 0, 1)
	x, p := start(w)
	n := sym.Choose("blocks", deep(3, 4))
	bad := sym.Choose("bad", n+1)
	how := 0
	if bad < n {
		how = 1 + sym.Choose("how", 5)
	}
	for i := 0; i < n; i++ {
		b := block(uint32(2+i), w.addrs[2])
		if sym.Choose("tx", 2) == 1 {
			b.Body.Txs = []wire.WrapTx{x.w.transfer(i%2, 0, 1)}
		}
		h := 0
		if i == bad {
			h = how
		}
		x.add(b, h)
	}
	replays(x, p, archive(x.files))
}

// C34_Order: the effect of blocks depends on their order.
func C34_Order() {
	w := keyWorld(2, 1)
	w.basic("balance", 0)
	x, p := start(w)
	x.add(block(2, w.addrs[2], x.w.transfer(0, 0, 1)), 0)
	x.add(block(3, w.addrs[2], x.w.transfer(0, 1, 0)), 0)
	if sym.Choose("swap", 2) == 1 {
		// The first block's root is only right before the second.
		x.files[1], x.files[2] = x.files[2], x.files[1]
		sym.Assume(x.ok)
		x.ok = false
	}
	replays(x, p, archive(x.files), []string{"-debug=false", "-debug"}[sym.Choose("debug", 2)])
}

// C34_Prune: blocks that empty a contract.
func C34_Prune() {
	s := newScene(1 + sym.Choose("kind", 2))
	kind := int(s.accs[s.k].Type())
	pruned := s.emptied()
	x, p := start(s.world)
	b := block(2, s.addrs[2], wire.WrapTx{Tx: s.spend(kind, 0, sym.U64("value"), sym.U64("fee"))})
	if sym.Choose("listed", 2) == 1 {
		b.Body.Pruned = []wire.AccountPruned{pruned}
	}
	x.add(b, 0)
	replays(x, p, archive(x.files))
}

// C34_Archive: archives that are cut short or damaged, and further members.
func C34_Archive() {
	w := keyWorld(2, 1)
	w.basic("balance", 0)
	x, p := start(w)
	sym.Assume(x.ok)
	x.add(block(2, w.addrs[2]), 0)
	x.add(block(3, w.addrs[2]), 0)
	tar := archive(x.files)
	switch sym.Choose("damage", 7) {
	case 0:
		tar = tar[:512+512+100] // inside the first block
		x.ok = false
	case 1:
		tar = tar[:512+1024+512+40] // inside the second block
		x.ok = false
	case 2:
		tar = tar[:512+1024+100] // inside the header of the second block
		x.ok = false
	case 3:
		tar[512+1024+148] ^= 1 // checksum of the second header
		x.ok = false
	case 4:
		tar[512] ^= 1 // first header without matching checksum
		x.ok = false
	case 5:
		tar = tar[:len(tar)-1024] // no end marker, but complete
	case 6: // an empty member behind the blocks
		x.files = append(x.files, member{"blocks/x", '0', nil})
		tar = archive(x.files)
		x.ok = false
	}
	if len(tar) > 512*5 {
		sym.Reach("whole")
	}
	replays(x, p, tar)
}

// C34_Genesis: the genesis state itself is wrong or missing.
func C34_Genesis() {
	w := keyWorld(2, 1)
	w.basic("balance", 0)
	x, p := start(w)
	sym.Assume(x.ok)
	x.add(block(2, w.addrs[2]), 0)
	args := []string{"-blocksPath", "blocks.tar", "-profile", "net"}
	switch sym.Choose("wrong", 6) {
	case 0:
		p.block = p.block[:len(p.block)-1]
	case 1:
		p.accounts[len(p.accounts)-1] ^= 1 // another balance
	case 2:
		p.conf = "name"
	case 3:
		args[3] = "nett"
	case 4:
		args[1] = "block.tar"
	case 5:
		args = []string{"-profile", "net"}
	}
	p.at("net", sym.File{Name: "blocks.tar", Data: archive(x.files)})
	out, ok := sym.Command(args...)
	sym.Assert(!ok, "replay fails without a right genesis state and archive")
	sym.Assert(!bytes.Contains([]byte(out), []byte("Blocks: ")), "no counts are reported after a failure")
}
