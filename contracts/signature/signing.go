package signature

import (
	"bytes"
	"crypto/ed25519"
	"crypto/sha256"
	"math/rand"

	"github.com/btcsuite/btcd/btcec"
	"verif.local/spec"
)

//govc:needs bip32

func Gen_KeyPair(r *rand.Rand) (int, []byte, []byte) {
	return []int{2, 3, 5, 6}[r.Intn(4)], bytesN(r, r.Intn(3)*16+r.Intn(2)*32), bytesN(r, r.Intn(100))
}

// A generated key pair has the sizes of its algorithm, the two keys match, and
// what the private key signs the public key accepts.
//
//govc:prop C16
//govc:func Generate
//govc:len a 2,3,5,6
//govc:gen KeyPair
func Contract_Generate(a int, src, msg []byte) {
	spec.Requires(family(a) != 0)
	al := algorithmOf(a)
	pub, priv, err := Generate(al, bytes.NewReader(src))
	if err != nil {
		return
	}
	spec.EnsuresN("enough randomness", len(src) >= 32)
	spec.EnsuresN("sizes", len(pub.KeyBytes()) == pub.Size() && len(priv.KeyBytes()) == priv.Size())
	spec.EnsuresN("algorithm", SameAlgorithm(pub.Algorithm(), al) && SameAlgorithm(priv.Algorithm(), al))
	spec.EnsuresN("the public key is that of the private key", spec.BytesEq(pub.KeyBytes(), al.Public(priv.KeyBytes())))
	sig := priv.Sign(msg)
	spec.EnsuresN("signature of the algorithm", SameAlgorithm(sig.Algorithm(), al) && (sig.Size() < 0 || len(sig.Bytes()) == sig.Size()))
	spec.EnsuresN("accepted", pub.Verify(msg, sig) && sig.Verify(msg, pub))
	spec.EnsuresN("the keys match", Match(pub, priv))
}

// Null keys are not generated, and accept nothing.
//
//govc:prop C16
//govc:func Generate
//govc:gen NullPair
func Contract_GenerateNull(a bool, src, msg, data []byte) {
	al := algorithmOf(1)
	if a {
		al = algorithmOf(4)
	}
	_, _, err := Generate(al, bytes.NewReader(src))
	spec.EnsuresN("refused", err != nil)
	spec.EnsuresN("null keys accept nothing", !al.Verify(data, msg, src))
}

func Gen_NullPair(r *rand.Rand) (bool, []byte, []byte, []byte) {
	return r.Intn(2) == 0, bytesN(r, r.Intn(40)), bytesN(r, r.Intn(40)), bytesN(r, r.Intn(40))
}

// Verification of ed25519 signatures is that of the library over the whole
// message.
//
//govc:prop C16
//govc:func PublicKey.Verify
//govc:gen EdVerify
func Contract_VerifyEd25519(k, x, msg, data []byte, ptr bool) {
	spec.Requires(len(k) == 32)
	al := algorithmOf(2)
	if ptr {
		al = algorithmOf(5)
	}
	pub, err := RawPublicKey(Ed25519, k, x)
	spec.EnsuresN("raw key", err == nil)
	sig := Signature{al, data}
	spec.EnsuresN("as the library", pub.Verify(msg, sig) == ed25519.Verify(k, msg, data))
	spec.EnsuresN("same either way", pub.Verify(msg, sig) == sig.Verify(msg, *pub))
}

func Gen_EdVerify(r *rand.Rand) ([]byte, []byte, []byte, []byte, bool) {
	pub, priv, _ := Generate(Ed25519, r)
	msg := bytesN(r, r.Intn(100))
	sig := priv.Sign(msg)
	if r.Intn(2) == 0 {
		msg = append(msg, 1)
	}
	return pub.KeyBytes(), bytesN(r, r.Intn(9)), msg, sig.Bytes(), r.Intn(2) == 0
}

// Verification of secp256k1 signatures is ECDSA over the SHA-256 hash of the
// whole message; malformed keys and signatures are not accepted.
//
//govc:prop C16
//govc:func PublicKey.Verify
//govc:gen EcVerify
func Contract_VerifySecp256k1(k, x, msg, data []byte, ptr bool) {
	spec.Requires(len(k) == 33)
	al := algorithmOf(3)
	if ptr {
		al = algorithmOf(6)
	}
	pub, err := RawPublicKey(Secp256k1, k, x)
	spec.EnsuresN("raw key", err == nil)
	sig := Signature{al, data}
	want := false
	if p, err := btcec.ParsePubKey(k, btcec.S256()); err == nil {
		if s, err := btcec.ParseSignature(data, btcec.S256()); err == nil {
			h := sha256.Sum256(msg)
			want = s.Verify(h[:], p)
		}
	}
	spec.EnsuresN("ECDSA of the hash", pub.Verify(msg, sig) == want)
	spec.EnsuresN("same either way", pub.Verify(msg, sig) == sig.Verify(msg, *pub))
}

func Gen_EcVerify(r *rand.Rand) ([]byte, []byte, []byte, []byte, bool) {
	pub, priv, _ := Generate(Secp256k1, r)
	msg := bytesN(r, r.Intn(100))
	sig := priv.Sign(msg)
	if r.Intn(2) == 0 {
		msg = append(msg, 1)
	}
	return pub.KeyBytes(), bytesN(r, r.Intn(9)), msg, sig.Bytes(), r.Intn(2) == 0
}

//govc:helper
func family(a int) int {
	switch a {
	case 2, 5:
		return 2
	case 3, 6:
		return 3
	}
	return 0
}

// A signature of another algorithm, or of none, is never accepted.
//
//govc:prop C16
//govc:func PublicKey.Verify
//govc:len a 0..6
//govc:len b 0..6
//govc:gen Mismatch
func Contract_Mismatch(a, b int, k, msg, data []byte) {
	if family(a) == family(b) && family(a) != 0 {
		spec.EnsuresN("same algorithm", SameAlgorithm(algorithmOf(a), algorithmOf(b)))
		return
	}
	spec.EnsuresN("another algorithm", family(a) == family(b) || !SameAlgorithm(algorithmOf(a), algorithmOf(b)))
	pub := PublicKey{keyBase{algorithm: algorithmOf(a), key: k}}
	sig := Signature{algorithmOf(b), data}
	spec.EnsuresN("not accepted", !pub.Verify(msg, sig) && !sig.Verify(msg, pub))
}

func Gen_Mismatch(r *rand.Rand) (int, int, []byte, []byte, []byte) {
	a := r.Intn(7)
	n := PublicKey{keyBase{algorithm: algorithmOf(a)}}.Size()
	return a, r.Intn(7), bytesN(r, n), bytesN(r, r.Intn(50)), bytesN(r, 64)
}

// Signing is a function of key and message; keys of the right size never make
// it fail.
//
//govc:prop C16
//govc:func PrivateKey.Sign
//govc:len a 0..6
//govc:gen Signing
func Contract_Sign(a int, k, msg []byte) {
	al := algorithmOf(a)
	p := PrivateKey{keyBase{algorithm: al, key: k}}
	spec.Requires(len(k) == p.Size())
	s := p.Sign(msg)
	spec.EnsuresN("of the same algorithm", SameAlgorithm(s.Algorithm(), p.Algorithm()))
	t := p.Sign(msg)
	spec.EnsuresN("deterministic", spec.BytesEq(s.Bytes(), t.Bytes()))
	switch a {
	case 2, 5:
		spec.EnsuresN("ed25519 of the message", spec.BytesEq(s.Bytes(), ed25519.Sign(k, msg)))
	case 3, 6:
		e, _ := btcec.PrivKeyFromBytes(btcec.S256(), k)
		h := sha256.Sum256(msg)
		g, err := e.Sign(h[:])
		spec.EnsuresN("ECDSA of the hash", err == nil && spec.BytesEq(s.Bytes(), g.Serialize()))
	default:
		spec.EnsuresN("empty", len(s.Bytes()) == 0)
	}
}

func Gen_Signing(r *rand.Rand) (int, []byte, []byte) {
	a, k, _ := Gen_Private(r)
	return a, k, bytesN(r, r.Intn(100))
}

// Truncating removes just the extra data, zeroizing everything; other keys
// are not affected.
//
//govc:prop C16
//govc:func (*PublicKey).Zeroize
//govc:len a 0..6
//govc:gen Zeroize
func Contract_Zeroize(a int, k, x []byte, private bool) {
	k0, x0 := spec.Copy(k), spec.Copy(x)
	if private {
		p := PrivateKey{keyBase{algorithmOf(a), k, x}}
		q := p
		p.Truncate()
		spec.EnsuresN("truncated", len(p.ExtraBytes()) == 0 && spec.BytesEq(p.KeyBytes(), k0) && family(a) == familyOf(p.Algorithm()))
		p.Zeroize()
		spec.EnsuresN("zero", p.IsZero() && len(p.KeyBytes()) == 0 && len(p.ExtraBytes()) == 0 && familyOf(p.Algorithm()) == 0)
		spec.EnsuresN("copy intact", spec.BytesEq(q.KeyBytes(), k0) && spec.BytesEq(q.ExtraBytes(), x0) && family(a) == familyOf(q.Algorithm()))
		return
	}
	p := PublicKey{keyBase{algorithmOf(a), k, x}}
	q := p
	p.Truncate()
	spec.EnsuresN("truncated", len(p.ExtraBytes()) == 0 && spec.BytesEq(p.KeyBytes(), k0) && family(a) == familyOf(p.Algorithm()))
	p.Zeroize()
	spec.EnsuresN("zero", p.IsZero() && len(p.KeyBytes()) == 0 && len(p.ExtraBytes()) == 0 && familyOf(p.Algorithm()) == 0)
	spec.EnsuresN("copy intact", spec.BytesEq(q.KeyBytes(), k0) && spec.BytesEq(q.ExtraBytes(), x0) && family(a) == familyOf(q.Algorithm()))
}

//govc:helper
func familyOf(al Algorithm) int {
	switch {
	case SameAlgorithm(al, Ed25519):
		return 2
	case SameAlgorithm(al, Secp256k1):
		return 3
	}
	return 0
}

func Gen_Zeroize(r *rand.Rand) (int, []byte, []byte, bool) {
	a, k, x := Gen_Private(r)
	return a, k, x, r.Intn(2) == 0
}
