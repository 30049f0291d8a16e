package props

import (
	"crypto/ed25519"

	"golang.org/x/crypto/blake2b"
	"terorie.dev/nimiq/wire"
	"verif/harness/sym"
)

func signedBytes(p *wire.PeerAddress) []byte {
	return rU64().enc(rU32().enc([]byte{p.Protocol}, p.Services), p.Timestamp)
}

func arbPeer(n string) wire.PeerAddress {
	p := rPeer(1).gen(n)
	p.Protocol = sym.U8(n + ".protocol")
	return p
}

// C10_Sign signs an arbitrary address with an arbitrary key.
func C10_Sign() {
	key := ed25519.NewKeyFromSeed(sym.Bytes("seed", 32))
	p := arbPeer("p")
	q := p
	p.Sign(key)
	sym.Assert(sym.EqBytes(p.PublicKey[:], key[32:]), "carries the key's public key")
	sym.Assert(p.VerifySignature(), "verifies under the key")
	sym.Assert(sym.EqBytes(p.Signature[:], ed25519.Sign(key, signedBytes(&q))), "covers exactly protocol, services and timestamp")
	// Nothing else changes.
	q.PublicKey, q.Signature = p.PublicKey, p.Signature
	sym.Assert(rPeerHeader().eq(p.PeerAddressHeader, q.PeerAddressHeader) && p.Detail == q.Detail, "signing changes nothing else")
	sym.ObserveBytes("sig", p.Signature[:])
}

// C10_Change changes one field of a signed address.
func C10_Change() {
	key := ed25519.NewKeyFromSeed(sym.Bytes("seed", 32))
	p := arbPeer("p")
	p.Sign(key)
	o := arbPeer("o")
	covered := true
	switch sym.Choose("field", 8) {
	case 0:
		sym.Assume(o.Protocol != p.Protocol)
		p.Protocol = o.Protocol
	case 1:
		sym.Assume(o.Services != p.Services)
		p.Services = o.Services
	case 2:
		sym.Assume(o.Timestamp != p.Timestamp)
		p.Timestamp = o.Timestamp
	case 3:
		sym.Assume(o.PublicKey != p.PublicKey)
		p.PublicKey = o.PublicKey
	case 4:
		sym.Assume(o.Signature != p.Signature)
		p.Signature = o.Signature
	case 5:
		covered = false
		p.NetAddress = o.NetAddress
	case 6:
		covered = false
		p.Distance = o.Distance
	case 7:
		covered = false
		p.Detail = o.Detail
	}
	sym.Assert(p.VerifySignature() == !covered, "fails exactly when a covered field changes")
}

// C10_OtherKey: another key's signature does not verify under this one.
func C10_OtherKey() {
	s1, s2 := sym.Bytes("seed", 32), sym.Bytes("seed2", 32)
	sym.Assume(!sym.EqBytes(s1, s2))
	k1, k2 := ed25519.NewKeyFromSeed(s1), ed25519.NewKeyFromSeed(s2)
	p := arbPeer("p")
	p.Sign(k1)
	q := p
	q.Sign(k2)
	sym.Assert(q.VerifySignature(), "signing again verifies under the new key")
	q.PublicKey = p.PublicKey
	sym.Assert(!q.VerifySignature(), "another key's signature does not verify")
}

// C10_Reference compares verification with Ed25519 over the documented bytes.
func C10_Reference() {
	key := ed25519.NewKeyFromSeed(sym.Bytes("seed", 32))
	p := arbPeer("p")
	if sym.Choose("own", 2) == 1 {
		copy(p.PublicKey[:], key[32:])
	}
	switch sym.Choose("sig", 3) {
	case 1:
		copy(p.Signature[:], ed25519.Sign(key, signedBytes(&p)))
	case 2:
		copy(p.Signature[:], ed25519.Sign(key, sym.Bytes("msg", 13)))
	}
	want := ed25519.Verify(p.PublicKey[:], signedBytes(&p), p.Signature[:])
	sym.Assert(p.VerifySignature() == want, "verification is Ed25519 over protocol, services and timestamp")
}

func C10_PeerID() {
	pub := sym.Bytes("pub", 32)
	id := wire.GetPeerID(pub)
	h := blake2b.Sum256(pub)
	sym.Assert(sym.EqBytes(id[:], h[:16]), "first 16 bytes of the hash of the public key")
	sym.Assert(len(id) == 16, "16 bytes")
}

// ---- C11 ----

func refRoot(p wire.MerklePath, leaf []byte) [32]byte {
	root := blake2b.Sum256(leaf)
	for i, h := range p.Hashes {
		if nthBit(p.Branches.Bits, i) {
			root = blake2b.Sum256(append(dup(h[:]), root[:]...))
		} else {
			root = blake2b.Sum256(append(dup(root[:]), h[:]...))
		}
	}
	return root
}

func refSigner(p *wire.SignatureProof) (a [20]byte) {
	root := refRoot(p.MerklePath, p.PublicKey[:])
	copy(a[:], root[:])
	return
}

func C11_Signer() {
	p := rProof(deep(4, 8)).gen("p")
	q := p
	root := p.MerklePath.ComputeRoot(p.PublicKey[:])
	want := refRoot(p.MerklePath, p.PublicKey[:])
	sym.Assert(root == want, "the Merkle root commits to key and path")
	addr := p.SignerAddress()
	sym.Assert(sym.EqBytes(addr[:], want[:20]), "the signer is the root's first 20 bytes")
	sym.Assert(rProof(0).eq(p, q), "the proof is left alone")
	if len(p.MerklePath.Hashes) == 0 {
		sym.Assert(addr == wire.PublicKeyToAddress(&p.PublicKey), "with an empty path it is the key's address")
	}
	sym.ObserveBytes("addr", addr[:])
}

// C11_LongPath crosses the first byte of branch bits.
func C11_LongPath() {
	n := []int{8, 9, 16, 17}[sym.Choose("n", 4)]
	var p wire.SignatureProof
	sym.Fill("pub", p.PublicKey[:])
	p.MerklePath.Branches = wire.BitSet{Len: uint8(n), Bits: make([]byte, (n+7)/8)}
	p.MerklePath.Branches.Bits[0] = 0x5a
	p.MerklePath.Branches.Bits[len(p.MerklePath.Branches.Bits)-1] = sym.U8("last")
	for i := 0; i < n; i++ {
		p.MerklePath.Hashes = append(p.MerklePath.Hashes, rHash32().gen("h"))
	}
	sym.Assert(p.SignerAddress() == refSigner(&p), "the signer of a long path")
}

// C11_Leaf: roots over values of other lengths.
func C11_Leaf() {
	leaf := sym.Bytes("leaf", []int{0, 1, 31, 33, 64}[sym.Choose("n", 5)])
	p := rMerkle(1).gen("p")
	sym.Assert(p.ComputeRoot(leaf) == refRoot(p, leaf), "root over any leaf value")
}

// C11_Binding: a single change names a different signer.
func C11_Binding() {
	p := rProof(deep(3, 5)).gen("p")
	q := p
	q.MerklePath.Branches.Bits = dup(p.MerklePath.Branches.Bits)
	q.MerklePath.Hashes = append([][32]byte(nil), p.MerklePath.Hashes...)
	n := len(p.MerklePath.Hashes)
	switch sym.Choose("change", 3) {
	case 0:
		sym.Fill("pub", q.PublicKey[:])
		sym.Assume(p.PublicKey != q.PublicKey)
	case 1:
		i := sym.Choose("i", n)
		q.MerklePath.Hashes[i] = rHash32().gen("node")
		sym.Assume(p.MerklePath.Hashes[i] != q.MerklePath.Hashes[i])
	case 2:
		i := sym.Choose("i", n)
		q.MerklePath.Branches.Bits[0] ^= 0x80 >> uint(i)
		below := wire.MerklePath{Branches: p.MerklePath.Branches, Hashes: p.MerklePath.Hashes[:i]}
		sym.Assume(refRoot(below, p.PublicKey[:]) != p.MerklePath.Hashes[i])
	}
	sym.Assert(p.SignerAddress() != q.SignerAddress(), "a different signer")
}

// C11_Unsigned: the signature is no part of who the signer is.
func C11_Signature() {
	p := rProof(2).gen("p")
	a := p.SignerAddress()
	sym.Fill("sig", p.Signature[:])
	sym.Assert(p.SignerAddress() == a, "the signature does not change the signer")
}

func C11_Address() {
	var pub [32]byte
	sym.Fill("pub", pub[:])
	a := wire.PublicKeyToAddress(&pub)
	h := blake2b.Sum256(pub[:])
	sym.Assert(sym.EqBytes(a[:], h[:20]), "first 20 bytes of the hash of the public key")
}

func C11_Path()     { roundTrip(rMerkle(deep(9, 17))) }
func C11_Proof()    { roundTrip(rProof(3)) }
func C11_PathAny()  { sizes(rMerkle(0), 0, 1, 2, 3, 33, 34, 35, 65, 66, 67) }
func C11_ProofAny() { sizes(rProof(0), 0, 1, 32, 96, 97, 98, 129, 130, 131, 162) }
func C11_Reuse()    { reuse(rProof(2)) }
func C11_Keeps()    { leaves(rProof(deep(2, 4))) }

// C11_PathLong decodes the longest path.
func C11_PathLong() {
	b := make([]byte, 1+32+255*32)
	b[0] = 255
	sym.Fill("bits", b[1:33])
	sym.Fill("last", b[len(b)-32:])
	bytesAgree(rMerkle(0), b[:len(b)-sym.Choose("cut", 2)], 256)
}

// C11_Decoded: decoded proofs have a signer without panicking.
func C11_Decoded() {
	b := sym.Bytes("b", []int{97, 98, 129, 130, 162, 163}[sym.Choose("len", 6)])
	var p wire.SignatureProof
	want, _, ok := rProof(0).dec(b)
	err := unmarshalAny(b, &p)
	sym.Assert((err == nil) == ok, "decodes exactly when valid")
	if ok {
		sym.Assert(p.SignerAddress() == refSigner(&want), "the decoded proof's signer")
	}
}
