package key

import (
	"encoding/binary"
	"math/rand"

	"github.com/btcsuite/btcd/btcec"
	"github.com/ndau/ndaumath/pkg/b32"
	"github.com/ndau/ndaumath/pkg/bip32"
	"github.com/ndau/ndaumath/pkg/signature"
	"verif.local/spec"
)

//govc:needs bip32 signature

func Gen_Any(r *rand.Rand) (key, chain, fp []byte, depth byte, num uint32, private bool) {
	key, chain, fp, depth, num, _ = Gen_Child(r)
	private = r.Intn(2) == 0
	if !private {
		key = bip32.PrivateToPublic(key)
		if r.Intn(4) == 0 {
			key[r.Intn(33)] ^= byte(r.Intn(256))
		}
	}
	return
}

//govc:helper
func zzKeyLen(private bool) int {
	if private {
		return 32
	}
	return 33
}

// Extended keys survive their text form.
//
//govc:prop C19
//govc:func (*ExtendedKey).UnmarshalText
//govc:gen Any
//govc:noprune
func Contract_Text(key, chain, fp []byte, depth byte, num uint32, private bool) {
	spec.Requires(len(key) == zzKeyLen(private) && len(chain) == 32 && len(fp) == 3)
	k := NewExtendedKey(key, chain, fp, depth, num, private)
	t, err := k.MarshalText()
	spec.EnsuresN("can be written", err == nil)
	spec.EnsuresN("prefix", len(t) > 4 && string(t[:4]) == "npvt" == private && string(t[:4]) == "npub" == !private)
	q := NewExtendedKey([]byte{1}, []byte{2}, []byte{3}, 4, 5, !private)
	q.pubKey = []byte{6}
	err = q.UnmarshalText(t)
	spec.EnsuresN("can be read", err == nil)
	spec.EnsuresN("same key", zzSame(k, q))
	spec.EnsuresN("no stale public key", len(q.pubKey) == 0)
	spec.EnsuresN("unchanged", spec.BytesEq(k.key, key) && spec.BytesEq(k.chainCode, chain) && spec.BytesEq(k.parentFP, fp) && k.depth == depth && k.childNum == num && k.isPrivate == private)
}

// Conversion to and from the keys of package signature.
//
//govc:prop C19
//govc:func ExtendedKey.AsSignatureKey
//govc:gen Any
//govc:noprune
func Contract_SignatureKey(key, chain, fp []byte, depth byte, num uint32, private bool) {
	spec.Requires(len(key) == zzKeyLen(private) && len(chain) == 32 && len(fp) == 3)
	k := NewExtendedKey(spec.Copy(key), spec.Copy(chain), spec.Copy(fp), depth, num, private)
	s, err := k.AsSignatureKey()
	spec.EnsuresN("converted", err == nil)
	spec.EnsuresN("kind", signature.IsPrivate(s) == private && signature.IsPublic(s) == !private)
	spec.EnsuresN("algorithm", signature.SameAlgorithm(s.Algorithm(), signature.Secp256k1))
	spec.EnsuresN("key", spec.BytesEq(s.KeyBytes(), key))
	x := s.ExtraBytes()
	spec.EnsuresN("extra length", len(x) == 40)
	spec.EnsuresN("extra: depth", x[0] == depth)
	spec.EnsuresN("extra: fingerprint", spec.BytesEq(x[1:4], fp))
	spec.EnsuresN("extra: number", binary.BigEndian.Uint32(x[4:8]) == num)
	spec.EnsuresN("extra: chain code", spec.BytesEq(x[8:], chain))
	q, err := FromSignatureKey(s)
	spec.EnsuresN("back", err == nil && zzSame(k, q))
	// the two share no memory
	err = q.FromSignatureKey(s)
	spec.EnsuresN("again into the same key", err == nil && zzSame(k, q))
	q.Zero()
	spec.EnsuresN("survives clearing of what was made from it", spec.BytesEq(s.KeyBytes(), key) && spec.BytesEq(s.ExtraBytes()[8:], chain))
	q, err = FromSignatureKey(s)
	k.Zero()
	spec.EnsuresN("survives clearing of what it was made from", spec.BytesEq(s.KeyBytes(), key) && spec.BytesEq(s.ExtraBytes()[8:], chain))
	spec.EnsuresN("again", err == nil && spec.BytesEq(q.key, key) && spec.BytesEq(q.chainCode, chain) && spec.BytesEq(q.parentFP, fp) && q.depth == depth && q.childNum == num && q.isPrivate == private)
}

func Gen_SigKey(r *rand.Rand) (a int, key, extra []byte, private bool) {
	a = r.Intn(3)
	private = r.Intn(2) == 0
	n := []int{32, 33, 64, 0}[r.Intn(4)]
	if a == 2 {
		n = zzKeyLen(private)
	}
	key = make([]byte, n)
	r.Read(key)
	extra = make([]byte, []int{0, 1, 30 + r.Intn(10), 40, 41, r.Intn(60)}[r.Intn(6)])
	r.Read(extra)
	return
}

// Keys of package signature that are not extended keys.
//
//govc:prop C19
//govc:func FromSignatureKey
//govc:gen SigKey
//govc:noprune
//govc:len a 0..2
func Contract_FromSignatureKey(a int, key, extra []byte, private bool) {
	spec.Requires(a >= 0 && a <= 2)
	al := []signature.Algorithm{signature.Null, signature.Ed25519, signature.Secp256k1}[a]
	var s signature.Key
	var err error
	if private {
		s, err = signature.RawPrivateKey(al, key, extra)
	} else {
		s, err = signature.RawPublicKey(al, key, extra)
	}
	if err != nil {
		return
	}
	q, err := FromSignatureKey(s)
	spec.EnsuresN("accepted exactly if an extended key", (err == nil) == (a == 2 && len(extra) >= 40))
	if err == nil {
		spec.EnsuresN("kind", q.isPrivate == private)
		spec.EnsuresN("key", spec.BytesEq(q.key, key))
		spec.EnsuresN("depth", q.depth == extra[0])
		spec.EnsuresN("fingerprint", spec.BytesEq(q.parentFP, extra[1:4]))
		spec.EnsuresN("number", q.childNum == binary.BigEndian.Uint32(extra[4:8]))
		spec.EnsuresN("chain code", spec.BytesEq(q.chainCode, extra[8:40]))
	} else {
		spec.EnsuresN("no key with an error", q == nil)
	}
}

func Gen_Old(r *rand.Rand) (version, key, chain, fp, sum []byte, depth byte, num uint32) {
	var private bool
	key, chain, fp, depth, num, private = Gen_Any(r)
	if private {
		if r.Intn(4) == 0 {
			n := btcec.S256().N.Bytes() // next to the order
			n[31] += byte(r.Intn(5)) - 2
			if r.Intn(4) == 0 {
				n = make([]byte, 32)
				n[31] = byte(r.Intn(2))
			}
			key = n
		}
		key = append([]byte{0}, key...)
	}
	version = make([]byte, 3)
	r.Read(version)
	p := zzOld(version, key, chain, fp, depth, num)
	sum = doubleHashB(p)[:4]
	if r.Intn(4) == 0 {
		sum = spec.Copy(sum)
		sum[r.Intn(4)] ^= byte(r.Intn(256))
	}
	return
}

//govc:helper
func zzOld(version, key, chain, fp []byte, depth byte, num uint32) []byte {
	p := append([]byte{}, version...)
	p = append(p, depth)
	p = append(p, fp...)
	p = append(p, byte(num>>24), byte(num>>16), byte(num>>8), byte(num))
	p = append(p, chain...)
	p = append(p, key...)
	return p
}

// The old text form of extended keys.
//
//govc:prop C19
//govc:func FromOldSerialization
//govc:gen Old
//govc:noprune
func Contract_FromOld(version, key, chain, fp, sum []byte, depth byte, num uint32) {
	spec.Requires(len(version) == 3 && len(key) == 33 && len(chain) == 32 && len(fp) == 3 && len(sum) == 4)
	p := zzOld(version, key, chain, fp, depth, num)
	good := spec.BytesEq(doubleHashB(p)[:4], sum)
	k, err := FromOldSerialization(b32.Encode(append(p[:len(p):len(p)], sum...)))
	if !good {
		spec.EnsuresN("checksum", err == ErrBadChecksum && k == nil)
		return
	}
	var usable bool
	if key[0] == 0 {
		usable = zzUsable(spec.SeqNum(key[1:]))
	} else {
		_, perr := btcec.ParsePubKey(key, btcec.S256())
		usable = perr == nil
	}
	spec.EnsuresN("accepted exactly if usable", (err == nil) == usable)
	if err != nil {
		spec.EnsuresN("no key with an error", k == nil)
		return
	}
	spec.EnsuresN("private", k.isPrivate == (key[0] == 0))
	if k.isPrivate {
		spec.EnsuresN("private key", spec.BytesEq(k.key, key[1:]))
	} else {
		spec.EnsuresN("public key", spec.BytesEq(k.key, key))
	}
	spec.EnsuresN("chain code", spec.BytesEq(k.chainCode, chain))
	spec.EnsuresN("fingerprint", spec.BytesEq(k.parentFP, fp))
	spec.EnsuresN("depth", k.depth == depth)
	spec.EnsuresN("number", k.childNum == num)
}

func Gen_OldText(r *rand.Rand) string {
	if r.Intn(2) == 0 {
		b := make([]byte, r.Intn(100))
		r.Read(b)
		return b32.Encode(b)
	}
	v, k, c, f, s, d, n := Gen_Old(r)
	t := []byte(b32.Encode(append(zzOld(v, k, c, f, d, n), s...)))
	if r.Intn(2) == 0 {
		t = t[:r.Intn(len(t)+1)]
	}
	if len(t) > 0 && r.Intn(2) == 0 {
		t[r.Intn(len(t))] = byte(r.Intn(256))
	}
	return string(t)
}

// Text that is no old form.
//
//govc:prop C19 C15
//govc:func FromOldSerialization
//govc:gen OldText
//govc:noprune
func Contract_HostileOld(s string) {
	d, derr := b32.Decode(s)
	k, err := FromOldSerialization(s)
	spec.EnsuresN("a key or an error", (k == nil) == (err != nil))
	if err == nil {
		spec.EnsuresN("only of 80 bytes", derr == nil && len(d) == 80)
		spec.EnsuresN("only with its checksum", spec.BytesEq(doubleHashB(d[:76])[:4], d[76:]))
		spec.EnsuresN("sizes", len(k.key) == zzKeyLen(k.isPrivate) && len(k.chainCode) == 32 && len(k.parentFP) == 3)
	}
}

func Gen_NewText(r *rand.Rand) []byte {
	a, key, extra, private := Gen_SigKey(r)
	al := []signature.Algorithm{signature.Null, signature.Ed25519, signature.Secp256k1}[a]
	var s signature.Key
	var err error
	if private {
		s, err = signature.RawPrivateKey(al, key, extra)
	} else {
		s, err = signature.RawPublicKey(al, key, extra)
	}
	if err != nil {
		return key
	}
	t, _ := s.MarshalText()
	if len(t) > 0 && r.Intn(2) == 0 {
		t[r.Intn(len(t))] = byte(r.Intn(256))
	}
	return t
}

// Text that is no extended key.
//
//govc:prop C19 C15
//govc:func (*ExtendedKey).UnmarshalText
//govc:gen NewText
//govc:noprune
func Contract_HostileText(t []byte) {
	var k ExtendedKey
	err := k.UnmarshalText(t)
	if err == nil {
		spec.EnsuresN("sizes", len(k.key) == zzKeyLen(k.isPrivate) && len(k.chainCode) == 32 && len(k.parentFP) == 3)
	}
}
