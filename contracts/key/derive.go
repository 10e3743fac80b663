package key

import (
	"crypto/hmac"
	"crypto/sha256"
	"crypto/sha512"
	"math/big"
	"math/rand"

	"github.com/btcsuite/btcd/btcec"
	"github.com/ndau/ndaumath/pkg/b32"
	"github.com/ndau/ndaumath/pkg/bip32"
	"verif.local/spec"
)

//govc:needs bip32 signature

//govc:helper
func zzOrder() spec.Z {
	return spec.Dec("115792089237316195423570985008687907852837564279074904382605163141518161494337")
}

// zzMAC is the HMAC-SHA512 that derivation uses.
//
//govc:helper
func zzMAC(chain, front []byte, i uint32) []byte {
	d := append([]byte{}, front...)
	d = append(d, byte(i>>24), byte(i>>16), byte(i>>8), byte(i))
	m := hmac.New(sha512.New, chain)
	m.Write(d)
	return m.Sum(nil)
}

// zzUsable: whether a number is a private key.
//
//govc:helper
func zzUsable(k spec.Z) bool { return spec.I(0).Lt(k) && k.Lt(zzOrder()) }

//govc:helper
func zzFingerprint(pub []byte) []byte {
	h := sha256.Sum256(pub)
	return b32.Checksum24(h[:])
}

func Gen_Child(r *rand.Rand) (key, chain, fp []byte, depth byte, num, i uint32) {
	key, chain, fp = make([]byte, 32), make([]byte, 32), make([]byte, 3)
	r.Read(key)
	r.Read(chain)
	r.Read(fp)
	if r.Intn(4) == 0 {
		for j := range key[:r.Intn(31)] {
			key[j] = 0
		}
	}
	i = r.Uint32()
	if r.Intn(3) == 0 {
		i = []uint32{0, 1, 255, 256, 0x7fffffff, 0x80000000, 0x80000001, 0xffffffff}[r.Intn(8)]
	}
	depth = byte(r.Intn(256))
	if r.Intn(4) == 0 {
		depth = 255
	}
	if r.Intn(50) == 0 {
		// a child whose key begins with two zero bytes
		n := btcec.S256().N
		v := new(big.Int).SetBytes(key)
		pub := bip32.PrivateToPublic(key)
		depth = 0
		for i = 0; i < 200000; i++ {
			c := new(big.Int).SetBytes(zzMAC(chain, pub, i)[:32])
			if c.Add(c, v).Mod(c, n).BitLen() <= 240 {
				break
			}
		}
	}
	return key, chain, fp, depth, r.Uint32(), i
}

// Children of private keys.
//
//govc:prop C17
//govc:func (*ExtendedKey).Child
//govc:gen Child
//govc:noprune
func Contract_ChildOfPrivate(key, chain, fp []byte, depth byte, num, i uint32) {
	spec.Requires(len(key) == 32 && len(chain) == 32 && len(fp) == 3)
	kn := spec.SeqNum(key)
	spec.Requires(zzUsable(kn))
	k := NewExtendedKey(key, chain, fp, depth, num, true)
	c, err := k.Child(i)
	if depth == 255 {
		spec.EnsuresN("depth limit", err == ErrDeriveBeyondMaxDepth && c == nil)
		return
	}
	pub := bip32.PrivateToPublic(key)
	front := pub
	if i >= 1<<31 {
		front = append([]byte{0}, key...)
	}
	mac := zzMAC(chain, front, i)
	il := spec.SeqNum(mac[:32])
	z := il.Add(kn).Mod(zzOrder())
	spec.EnsuresN("refused exactly if unusable", (err == nil) == (zzUsable(il) && zzUsable(z)))
	if err != nil {
		spec.EnsuresN("no key with an error", c == nil && err == ErrInvalidChild)
		return
	}
	spec.EnsuresN("private", c.IsPrivate())
	spec.EnsuresN("32 bytes", len(c.Bytes()) == 32)
	spec.EnsuresN("key is the sum modulo the order", spec.SeqNum(c.Bytes()).Eq(z))
	spec.EnsuresN("chain code", spec.BytesEq(c.chainCode, mac[32:]))
	spec.EnsuresN("depth", c.Depth() == depth+1)
	spec.EnsuresN("number", c.childNum == i)
	spec.EnsuresN("parent fingerprint", spec.BytesEq(c.parentFP, zzFingerprint(pub)))
	spec.EnsuresN("public key of the child", spec.BytesEq(c.PubKeyBytes(), bip32.PrivateToPublic(c.Bytes())))
}

func Gen_ChildPub(r *rand.Rand) (key, chain, fp []byte, depth byte, num, i uint32) {
	key, chain, fp, depth, num, i = Gen_Child(r)
	key = bip32.PrivateToPublic(key)
	if r.Intn(4) == 0 {
		key[r.Intn(33)] ^= byte(r.Intn(256))
	}
	return
}

// Children of public keys.
//
//govc:prop C17
//govc:func (*ExtendedKey).Child
//govc:gen ChildPub
//govc:noprune
func Contract_ChildOfPublic(key, chain, fp []byte, depth byte, num, i uint32) {
	spec.Requires(len(key) == 33 && len(chain) == 32 && len(fp) == 3)
	k := NewExtendedKey(key, chain, fp, depth, num, false)
	c, err := k.Child(i)
	if depth == 255 {
		spec.EnsuresN("depth limit", err == ErrDeriveBeyondMaxDepth && c == nil)
		return
	}
	if i >= 1<<31 {
		spec.EnsuresN("hardened children need the private key", err == ErrDeriveHardFromPublic && c == nil)
		return
	}
	mac := zzMAC(chain, key, i)
	il := spec.SeqNum(mac[:32])
	p, perr := btcec.ParsePubKey(key, btcec.S256())
	if perr != nil || !zzUsable(il) {
		spec.EnsuresN("refused", err != nil && c == nil)
		return
	}
	gx, gy := btcec.S256().ScalarBaseMult(mac[:32])
	x, y := btcec.S256().Add(gx, gy, p.X, p.Y)
	if x.Sign() == 0 && y.Sign() == 0 {
		spec.EnsuresN("refused at infinity", err != nil && c == nil)
		return
	}
	q := btcec.PublicKey{Curve: btcec.S256(), X: x, Y: y}
	spec.EnsuresN("accepted", err == nil)
	spec.EnsuresN("public", !c.IsPrivate())
	spec.EnsuresN("key is the sum of the points", spec.BytesEq(c.Bytes(), q.SerializeCompressed()))
	spec.EnsuresN("chain code", spec.BytesEq(c.chainCode, mac[32:]))
	spec.EnsuresN("depth", c.Depth() == depth+1)
	spec.EnsuresN("number", c.childNum == i)
	spec.EnsuresN("parent fingerprint", spec.BytesEq(c.parentFP, zzFingerprint(key)))
}

//govc:helper
func zzSame(a, b *ExtendedKey) bool {
	return spec.BytesEq(a.key, b.key) && spec.BytesEq(a.chainCode, b.chainCode) && spec.BytesEq(a.parentFP, b.parentFP) &&
		a.depth == b.depth && a.childNum == b.childNum && a.isPrivate == b.isPrivate
}

// The public key of a child is the child of the public key.
//
//govc:prop C18
//govc:func (*ExtendedKey).Public
//govc:gen Child
//govc:noprune
func Contract_Commute(key, chain, fp []byte, depth byte, num, i uint32) {
	spec.Requires(len(key) == 32 && len(chain) == 32 && len(fp) == 3)
	spec.Requires(zzUsable(spec.SeqNum(key)))
	spec.Requires(i < 1<<31)
	k := NewExtendedKey(key, chain, fp, depth, num, true)
	pub, err := k.Public()
	spec.EnsuresN("has a public key", err == nil && !pub.IsPrivate())
	c, err1 := k.Child(i)
	d, err2 := pub.Child(i)
	spec.EnsuresN("both or none", (err1 == nil) == (err2 == nil))
	if err1 == nil {
		cp, err := c.Public()
		spec.EnsuresN("public key of the child", err == nil)
		spec.EnsuresN("same", zzSame(cp, d))
	}
}

// Public keys.
//
//govc:prop C18
//govc:func (*ExtendedKey).Public
//govc:gen Child
//govc:noprune
func Contract_Public(key, chain, fp []byte, depth byte, num, _ uint32) {
	spec.Requires(len(key) == 32 && len(chain) == 32 && len(fp) == 3)
	spec.Requires(zzUsable(spec.SeqNum(key)))
	k := NewExtendedKey(spec.Copy(key), spec.Copy(chain), spec.Copy(fp), depth, num, true)
	want := bip32.PrivateToPublic(key)
	p, err := k.Public()
	spec.EnsuresN("public", err == nil && !p.IsPrivate())
	spec.EnsuresN("key", spec.BytesEq(p.Bytes(), want) && spec.BytesEq(p.PubKeyBytes(), want) && spec.BytesEq(k.PubKeyBytes(), want))
	spec.EnsuresN("the rest is the same", spec.BytesEq(p.chainCode, chain) && spec.BytesEq(p.parentFP, fp) && p.depth == depth && p.childNum == num)
	spec.EnsuresN("private key as it was", k.IsPrivate() && spec.BytesEq(k.Bytes(), key) && spec.BytesEq(k.chainCode, chain) && spec.BytesEq(k.parentFP, fp))
	fpn := k.ParentFingerprint()
	spec.EnsuresN("fingerprint number", fpn == uint32(fp[0])<<16|uint32(fp[1])<<8|uint32(fp[2]))
	q, err := p.Public()
	spec.EnsuresN("public key of a public key", err == nil && zzSame(p, q))
	_, err = p.ECPrivKey()
	_, err2 := p.SPrivKey()
	spec.EnsuresN("no private key in it", err == ErrNotPrivExtKey && err2 == ErrNotPrivExtKey)
	ec, err := k.ECPubKey()
	spec.EnsuresN("as a btcec key", err == nil && spec.BytesEq(ec.SerializeCompressed(), want))
	// clearing the private key leaves the public key, and the reverse
	p2, _ := k.Public()
	k2 := NewExtendedKey(spec.Copy(key), spec.Copy(chain), spec.Copy(fp), depth, num, true)
	p3, _ := k2.Public()
	p3.Zero()
	spec.EnsuresN("private key survives clearing of the public key", spec.BytesEq(k2.key, key) && spec.BytesEq(k2.PubKeyBytes(), want) && spec.BytesEq(k2.chainCode, chain) && spec.BytesEq(k2.parentFP, fp) && k2.isPrivate)
	k.Zero()
	spec.EnsuresN("public key survives clearing of the private key", spec.BytesEq(p2.Bytes(), want) && spec.BytesEq(p2.chainCode, chain) && spec.BytesEq(p2.parentFP, fp) && p2.depth == depth && p2.childNum == num)
	spec.EnsuresN("nothing left in a cleared key", len(k.Bytes()) == 0 && len(k.PubKeyBytes()) == 0 && k.Depth() == 0 && k.childNum == 0 && !k.IsPrivate() && len(k.chainCode) == 0 && len(k.parentFP) == 0)
}

// Clearing overwrites the memory of the key.
//
//govc:prop C18
//govc:func (*ExtendedKey).Zero
//govc:gen Child
//govc:noprune
func Contract_Zero(key, chain, fp []byte, depth byte, num, _ uint32) {
	spec.Requires(len(key) == 32 && len(chain) == 32 && len(fp) == 3)
	a, b := spec.Copy(key), spec.Copy(chain)
	k := NewExtendedKey(a, b, spec.Copy(fp), depth, num, true)
	k.Zero()
	z := make([]byte, 32)
	spec.EnsuresN("overwritten", spec.BytesEq(a, z) && spec.BytesEq(b, z))
}

// Hardened children.
//
//govc:prop C17
//govc:func (*ExtendedKey).HardenedChild
//govc:gen Child
//govc:noprune
func Contract_HardenedChild(key, chain, fp []byte, depth byte, num, n uint32) {
	spec.Requires(len(key) == 32 && len(chain) == 32 && len(fp) == 3)
	spec.Requires(zzUsable(spec.SeqNum(key)))
	k := NewExtendedKey(key, chain, fp, depth, num, true)
	c, err := k.HardenedChild(n)
	if n >= 1<<31 {
		spec.EnsuresN("no such child", err != nil && c == nil)
		return
	}
	d, err2 := k.Child(n + 1<<31)
	spec.EnsuresN("both or none", (err == nil) == (err2 == nil))
	if err == nil {
		spec.EnsuresN("same", zzSame(c, d))
	}
	p, _ := k.Public()
	_, err = p.HardenedChild(n)
	spec.EnsuresN("not from a public key", err != nil)
}

// Derivation changes neither the parent nor its serialization.
//
//govc:prop C18
//govc:func (*ExtendedKey).Child
//govc:gen Child
//govc:noprune
func Contract_ParentUnchanged(key, chain, fp []byte, depth byte, num, i uint32) {
	spec.Requires(len(key) == 32 && len(chain) == 32 && len(fp) == 3)
	k := NewExtendedKey(spec.Copy(key), spec.Copy(chain), spec.Copy(fp), depth, num, true)
	c, err := k.Child(i)
	spec.EnsuresN("unchanged", spec.BytesEq(k.key, key) && spec.BytesEq(k.chainCode, chain) && spec.BytesEq(k.parentFP, fp) && k.depth == depth && k.childNum == num && k.isPrivate)
	if err == nil {
		c.Zero()
		spec.EnsuresN("unchanged by clearing the child", spec.BytesEq(k.key, key) && spec.BytesEq(k.chainCode, chain) && spec.BytesEq(k.parentFP, fp) && k.depth == depth && k.childNum == num && k.isPrivate)
	}
}

// Master keys.
//
//govc:prop C17
//govc:func NewMaster
//govc:gen MasterSeed
//govc:noprune
func Contract_NewMaster(seed []byte) {
	k, err := NewMaster(seed)
	il, ir, err2 := bip32.NewMaster(seed)
	spec.EnsuresN("accepted alike", (err == nil) == (err2 == nil))
	if err == nil {
		spec.EnsuresN("key and chain code", spec.BytesEq(k.key, il[:]) && spec.BytesEq(k.chainCode, ir[:]))
		spec.EnsuresN("root", k.Depth() == 0 && k.ParentFingerprint() == 0 && k.childNum == 0 && k.IsPrivate())
		spec.EnsuresN("a usable key", zzUsable(spec.SeqNum(k.key)))
	}
}

func Gen_MasterSeed(r *rand.Rand) []byte {
	b := make([]byte, r.Intn(70))
	r.Read(b)
	return b
}

// A key derived stays as it is when another one is, and is the same when it is
// derived again.
//
//govc:prop C18
//govc:func (*ExtendedKey).Child
//govc:gen Child
//govc:noprune
func Contract_Siblings(key, chain, fp []byte, depth byte, i, j uint32) {
	spec.Requires(len(key) == 32 && len(chain) == 32 && len(fp) == 3)
	k := NewExtendedKey(key, chain, fp, depth, 0, true)
	zzSiblings(k, i, j)
}

//govc:prop C18
//govc:func (*ExtendedKey).Child
//govc:gen ChildPub
//govc:noprune
func Contract_PublicSiblings(key, chain, fp []byte, depth byte, i, j uint32) {
	spec.Requires(len(key) == 33 && len(chain) == 32 && len(fp) == 3)
	k := NewExtendedKey(key, chain, fp, depth, 0, false)
	zzSiblings(k, i, j)
}

//govc:helper
func zzSiblings(k *ExtendedKey, i, j uint32) {
	c, err := k.Child(i)
	if err != nil {
		return
	}
	key, chain, fp := spec.Copy(c.key), spec.Copy(c.chainCode), spec.Copy(c.parentFP)
	d, err := k.Child(j)
	spec.EnsuresN("first child's key still the same", spec.BytesEq(c.key, key))
	spec.EnsuresN("first child's chain code still the same", spec.BytesEq(c.chainCode, chain))
	spec.EnsuresN("first child's fingerprint still the same", spec.BytesEq(c.parentFP, fp))
	if err != nil || k.isPrivate {
		return
	}
	d.Zero()
	spec.EnsuresN("key survives clearing of its sibling", spec.BytesEq(c.key, key))
	spec.EnsuresN("chain code survives clearing of its sibling", spec.BytesEq(c.chainCode, chain))
	spec.EnsuresN("fingerprint survives clearing of its sibling", spec.BytesEq(c.parentFP, fp))
}

// Deriving again gives the same.
//
//govc:prop C18
//govc:func (*ExtendedKey).Child
//govc:gen ChildPub
//govc:noprune
func Contract_ChildAgain(key, chain, fp []byte, depth byte, i, j uint32) {
	spec.Requires(len(key) == 33 && len(chain) == 32 && len(fp) == 3)
	k := NewExtendedKey(key, chain, fp, depth, 0, false)
	k.PubKeyBytes()
	k.Child(j)
	c, err := k.Child(i)
	d, err2 := NewExtendedKey(key, chain, fp, depth, 0, false).Child(i)
	spec.EnsuresN("both or none", (err == nil) == (err2 == nil))
	if err == nil {
		spec.EnsuresN("same key", spec.BytesEq(c.key, d.key))
		spec.EnsuresN("same chain code", spec.BytesEq(c.chainCode, d.chainCode))
		spec.EnsuresN("same fingerprint", spec.BytesEq(c.parentFP, d.parentFP) && c.depth == d.depth && c.childNum == d.childNum)
	}
}
