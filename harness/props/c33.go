package props

import (
	"encoding/hex"

	"terorie.dev/nimiq/genesis"
	"terorie.dev/nimiq/wire"
	"verif/harness/sym"
)

// ---- C33 ----

func rListed() R[genesis.Account] {
	return rStruct(
		raw("Address", func(a *genesis.Account) []byte { return a.Address[:] }),
		fld("Account", func(a *genesis.Account) *wire.WrapAccount { return &a.Account }, rAcc()),
	)
}

// profile is what the files of a profile hold.
type profile struct {
	conf     string
	block    []byte
	accounts []byte
}

// smallest has an empty configuration and block and no accounts.
func smallest() profile {
	return profile{block: rBlock(0, 0, 0, 0).enc(nil, wire.Block{}), accounts: []byte{0, 0}}
}

// at writes the profile's files.
func (p profile) at(path string, more ...sym.File) {
	sym.Files(append(more, sym.File{Name: path + ".toml", Data: []byte(p.conf)},
		sym.File{Name: path + ".block.bin", Data: p.block},
		sym.File{Name: path + ".accounts.bin", Data: p.accounts})...)
}

func sameConf(a, b *genesis.Config) bool {
	ok := sym.And(a.NetworkID == b.NetworkID, sym.EqBytes([]byte(a.Name), []byte(b.Name)))
	ok = sym.And(ok, sym.And(a.GenesisHash == b.GenesisHash, sym.And(sameTexts(a.SeedPeers, b.SeedPeers), sameTexts(a.SeedLists, b.SeedLists))))
	return ok
}

func sameTexts(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		ok = sym.And(ok, sym.EqBytes([]byte(a[i]), []byte(b[i])))
	}
	return ok
}

// plain is text of n characters that TOML strings hold as they are.
func plain(name string, n int) string {
	b := sym.Bytes(name, n)
	for _, c := range b {
		sym.Assume(sym.And(sym.And(c >= ' ', c < 0x7f), sym.And(c != '"', c != '\\')))
	}
	return string(b)
}

const someHash = "264aaf8a4f9828a76c550635da078eb466306a189fcc03710bee9f649c869d12"

// loads opens the profile and compares its configuration.
func loads(p profile, want *genesis.Config) {
	p.at("net")
	got, err := genesis.OpenProfile("net")
	if want == nil {
		sym.Assert(err != nil, "a wrong configuration is an error")
		return
	}
	sym.Assert(err == nil, "the profile opens")
	if err == nil {
		sym.Assert(got.Config != nil && sameConf(got.Config, want), "the configuration is what the file says")
		sym.Assert(len(got.Accounts) == 0, "there are no accounts")
		sym.Reach("opened")
	}
}

// C33_Network: any number as network ID.
func C33_Network() {
	p := smallest()
	d := sym.Bytes("digit", 1+sym.Choose("digits", 4))
	n := 0
	for _, c := range d {
		sym.Assume(sym.And(c >= '0', c <= '9'))
		n = 10*n + int(c-'0')
	}
	if len(d) > 1 {
		sym.Assume(d[0] != '0')
	}
	p.conf = "network_id = " + string(d) + "\n"
	if n > 255 {
		loads(p, nil)
	} else {
		loads(p, &genesis.Config{NetworkID: uint8(n)})
	}
}

// C33_Name: any plain name.
func C33_Name() {
	p := smallest()
	name := plain("name", sym.Choose("len", deep(4, 6)))
	p.conf = "name = \"" + name + "\"\nnetwork_id = 7\n"
	loads(p, &genesis.Config{NetworkID: 7, Name: name})
}

// C33_Seeds: lists of seeds.
func C33_Seeds() {
	p := smallest()
	want := &genesis.Config{}
	list := func(key string, n int) (texts []string) {
		p.conf += key + " = ["
		for i := 0; i < n; i++ {
			t := "wss://" + plain(key, 2) + "/" + string(rune('a'+i))
			texts = append(texts, t)
			p.conf += "\"" + t + "\""
			if i+1 < n || sym.Choose("comma", 2) == 1 {
				p.conf += ","
			}
			p.conf += "\n"
		}
		p.conf += "]\n"
		return
	}
	if sym.Choose("order", 2) == 0 {
		want.SeedPeers = list("seed_peers", sym.Choose("peers", 4))
		want.SeedLists = list("seed_lists", sym.Choose("lists", 3))
	} else {
		want.SeedLists = list("seed_lists", 1)
		want.SeedPeers = list("seed_peers", 2)
	}
	loads(p, want)
}

// C33_Hash: any hash, and hashes with a wrong character or length.
func C33_Hash() {
	p := smallest()
	text := []byte(someHash)
	at := []int{0, 1, 31, 62, 63}[sym.Choose("at", 5)]
	c := sym.U8("char")
	sym.Assume(sym.And(sym.And(c >= ' ', c < 0x7f), sym.And(c != '"', c != '\\')))
	text[at] = c
	n := len(text)
	switch sym.Choose("length", 4) {
	case 1:
		text = text[:63]
	case 2:
		text = text[:62]
	case 3:
		text = append(text, "00"...)
	}
	p.conf = "genesis_hash = \"" + string(text) + "\"\n"
	h, err := refUnhex(text)
	if !err || len(text) != n {
		loads(p, nil)
		return
	}
	want := &genesis.Config{}
	copy(want.GenesisHash[:], h)
	loads(p, want)
}

func refUnhex(t []byte) (b []byte, ok bool) {
	if len(t)%2 != 0 {
		return nil, false
	}
	var x byte
	for i, c := range t {
		switch {
		case c >= '0' && c <= '9':
			c -= '0'
		case c >= 'a' && c <= 'f':
			c -= 'a' - 10
		case c >= 'A' && c <= 'F':
			c -= 'A' - 10
		default:
			return nil, false
		}
		x = x<<4 | c
		if i%2 == 1 {
			b = append(b, x)
		}
	}
	return b, true
}

// C33_All: every key at once, some missing, in two orders.
func C33_All() {
	p := smallest()
	want := &genesis.Config{}
	var lines []string
	if sym.Choose("network", 2) == 1 {
		d := sym.U8("digit")
		sym.Assume(sym.And(d >= '0', d <= '9'))
		want.NetworkID = d - '0'
		lines = append(lines, "network_id = "+string([]byte{d}))
	}
	if sym.Choose("name", 2) == 1 {
		want.Name = plain("name", 1)
		lines = append(lines, "name = \""+want.Name+"\"")
	}
	if sym.Choose("peers", 2) == 1 {
		want.SeedPeers = []string{plain("peer", 1), "second"}
		lines = append(lines, "seed_peers = [\""+want.SeedPeers[0]+"\", \"second\"]")
	}
	if sym.Choose("lists", 2) == 1 {
		want.SeedLists = []string{plain("list", 1)}
		lines = append(lines, "seed_lists = [ \""+want.SeedLists[0]+"\" ]")
	}
	if sym.Choose("hash", 2) == 1 {
		h, _ := hex.DecodeString(someHash)
		copy(want.GenesisHash[:], h)
		lines = append(lines, "genesis_hash = \""+someHash+"\"")
	}
	back := sym.Choose("order", 2) == 1
	for i := range lines {
		if back {
			p.conf += lines[len(lines)-1-i] + "\n"
		} else {
			p.conf += lines[i] + "\n"
		}
	}
	loads(p, want)
}

// C33_Malformed: configurations that are no TOML or have values of wrong types.
func C33_Malformed() {
	p := smallest()
	bad := []string{
		"network_id", "network_id =", "network_id = -1\n", "network_id = 256\n", "network_id = \"1\"\n", "network_id = 1.5\n",
		"name = main\n", "name = 5\n", "name = \"x\n", "name = \"x\"\nname = \"y\"\n", "seed_peers = \"x\"\n", "seed_peers = [1]\n",
		"seed_peers = [\"x\"\n", "seed_lists = 1\n", "genesis_hash = 1\n", "genesis_hash = \"zz\"\n", "= 1\n", "[\n", "name = \"ok\"\n]\n",
	}
	p.conf = bad[sym.Choose("conf", len(bad))]
	loads(p, nil)
}

// C33_Block: any block, its file complete, cut short or too long.
func C33_Block() {
	r := rBlock(1, 1, deep(1, 2), 1)
	v := r.gen("block")
	p := smallest()
	p.block = r.enc(nil, v)
	p.conf = "name = \"x\"\n"
	want := true
	switch sym.Choose("file", 3) {
	case 1:
		p.block = p.block[:len(p.block)-1-sym.Choose("cut", 2)*100]
		want = false
	case 2:
		p.block = append(p.block, sym.U8("more"))
		want = false
	}
	p.at("net")
	got, err := genesis.OpenProfile("net")
	sym.Assert((err == nil) == want, "opens exactly when the block file is complete and exact")
	if err == nil {
		sym.Assert(r.eq(got.Block, v), "the block is the file's")
		sym.Assert(got.Config.Name == "x" && len(got.Accounts) == 0, "and so is the rest")
		sym.Reach("opened")
	}
}

// C33_Accounts: any list of accounts, the file complete, cut short or too long.
func C33_Accounts() {
	r := rSlice(2, deep(3, 4), rListed())
	v := r.gen("accounts")
	p := smallest()
	p.accounts = r.enc(nil, v)
	want := true
	switch sym.Choose("file", 4) {
	case 1:
		p.accounts = p.accounts[:len(p.accounts)-1]
		want = false
	case 2:
		p.accounts = append(p.accounts, sym.U8("more"))
		want = false
	case 3:
		p.accounts = nil
		want = false
	}
	p.at("net")
	got, err := genesis.OpenProfile("net")
	sym.Assert((err == nil) == want, "opens exactly when the accounts file is complete and exact")
	if err == nil {
		sym.Assert(r.eq(got.Accounts, v), "the accounts are the file's")
		sym.Assert(rBlock(0, 0, 0, 0).eq(got.Block, wire.Block{}), "and so is the block")
		sym.Reach("opened")
	}
}

// C33_Bytes: arbitrary short files.
func C33_Bytes() {
	p := smallest()
	p.accounts = sym.Bytes("accounts", []int{0, 1, 2, 3, 24, 31, 32}[sym.Choose("len", 7)])
	v, rest, ok := rSlice(2, 0, rListed()).dec(p.accounts)
	p.at("net")
	got, err := genesis.OpenProfile("net")
	sym.Assert((err == nil) == (ok && len(rest) == 0), "opens exactly when the accounts are well-formed")
	if err == nil {
		sym.Assert(rSlice(2, 0, rListed()).eq(got.Accounts, v), "the accounts are the file's")
		sym.Reach("opened")
	}
}

// C33_Missing: files that are missing, and profiles in directories.
func C33_Missing() {
	p := smallest()
	p.conf = "name = \"x\"\n"
	fs := []sym.File{{Name: "dir/net.toml", Data: []byte(p.conf)}, {Name: "dir/net.block.bin", Data: p.block}, {Name: "dir/net.accounts.bin", Data: p.accounts}}
	m := sym.Choose("missing", 4)
	if m < 3 {
		fs = append(fs[:m:m], fs[m+1:]...)
	}
	path := []string{"dir/net", "net", "dir", "dir/net.toml", "", "Main", "dir/ne"}[sym.Choose("path", 7)]
	sym.Files(fs...)
	got, err := genesis.OpenProfile(path)
	sym.Assert((err == nil) == (m == 3 && path == "dir/net"), "opens exactly when all files are there")
	if err == nil {
		sym.Assert(got.Config.Name == "x", "the configuration is the file's")
		sym.Reach("opened")
	} else {
		sym.Assert(got == nil, "no profile with an error")
	}
}

// C33_Again opens a profile, changes what it got, and opens it and another one again.
func C33_Again() {
	p := smallest()
	p.conf = "network_id = 7\nname = \"one\"\nseed_peers = [\"a\"]\n"
	p.accounts = rSlice(2, 2, rListed()).enc(nil, []genesis.Account{listed(addrOf(1), anyAccount("account"))})
	old := dup(p.accounts)
	path := []string{"net", genesis.ProfileTest}[sym.Choose("profile", 2)]
	p.at("net")
	first, err := genesis.OpenProfile(path)
	sym.Assert(err == nil, "the profile opens")
	name, n := first.Config.Name, len(first.Accounts)
	first.Config.Name, first.Config.SeedPeers, first.Accounts = "changed", nil, nil
	sym.Fill("header", first.Block.Header.PrevHash[:])
	first.Block.Body = nil
	again, err := genesis.OpenProfile(path)
	sym.Assert(err == nil && again.Config.Name == name && len(again.Accounts) == n, "opening again gives what the files contain")
	sym.Assert(again.Config.SeedPeers != nil, "also its seeds")
	q := smallest()
	q.conf = "name = \"two\"\n"
	q.at("net")
	third, err := genesis.OpenProfile("net")
	sym.Assert(err == nil && third.Config.Name == "two" && third.Config.NetworkID == 0, "changed files are read again")
	sym.Assert(len(third.Config.SeedPeers) == 0 && len(third.Accounts) == 0, "all of them")
	sym.Assert(sym.EqBytes(p.accounts, old), "files are only read")
}

// C33_Embedded: the built-in profiles are the embedded files, whatever the working directory holds.
func C33_Embedded() {
	name := []string{genesis.ProfileMain, genesis.ProfileTest}[sym.Choose("profile", 2)]
	p := profile{string(sym.Embedded("files/" + name + ".toml")), sym.Embedded("files/" + name + ".block.bin"), sym.Embedded("files/" + name + ".accounts.bin")}
	decoy := []sym.File{{Name: name + ".toml", Data: []byte("name = \"decoy\"\n")}, {Name: name + ".block.bin", Data: smallest().block}, {Name: name + ".accounts.bin", Data: []byte{0, 0}}}
	p.at("copy", decoy...)
	got, err := genesis.OpenProfile(name)
	want, err2 := genesis.OpenProfile("copy")
	sym.Assert(err == nil && err2 == nil, "the profiles open")
	sym.Assert(got.Config.Name == name, "the profile's name")
	sym.Assert(sameConf(got.Config, want.Config), "the configuration is the file's")
	sym.Assert(rBlock(0, 0, 0, 0).eq(got.Block, want.Block), "the block is the file's")
	r := rListed()
	sym.Assert(len(got.Accounts) == len(want.Accounts), "as many accounts")
	for i := range got.Accounts {
		sym.Assert(r.eq(got.Accounts[i], want.Accounts[i]), "the accounts are the file's")
	}
}
