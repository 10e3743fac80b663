package signature

import (
	"crypto"
	"crypto/ed25519"
	"io"

	"verif.local/spec"
)

// The assumed contracts of crypto/ed25519 and math/rand (those of btcec are in
// bip32/crypto.go).

//govc:model crypto/ed25519.NewKeyFromSeed
func Model_NewKeyFromSeed(seed []byte) ed25519.PrivateKey {
	if len(seed) != 32 {
		panic("ed25519: bad seed length")
	}
	return ed25519.PrivateKey(append(append([]byte{}, seed...), spec.Fn("edpub", 32, seed)...))
}

//govc:model crypto/ed25519.GenerateKey
func Model_GenerateKey(rand io.Reader) (ed25519.PublicKey, ed25519.PrivateKey, error) {
	seed := make([]byte, 32)
	if _, err := io.ReadFull(rand, seed); err != nil {
		return nil, nil, err
	}
	p := Model_NewKeyFromSeed(seed)
	return ed25519.PublicKey(append([]byte{}, p[32:]...)), p, nil
}

//govc:model (crypto/ed25519.PrivateKey).Public
func Model_EdPublic(p ed25519.PrivateKey) crypto.PublicKey {
	k := make([]byte, 32)
	copy(k, p[32:])
	return ed25519.PublicKey(k)
}

//govc:model crypto/ed25519.Sign
func Model_EdSign(p ed25519.PrivateKey, m []byte) []byte {
	if len(p) != 64 {
		panic("ed25519: bad private key length")
	}
	sig := spec.Fn("edsign", 64, []byte(p), m)
	pub := spec.Fn("edpub", 32, []byte(p[:32]))
	if spec.BytesEq(pub, p[32:]) {
		spec.Assume(spec.FnBool("edverify", pub, m, sig))
	}
	return sig
}

//govc:model crypto/ed25519.Verify
func Model_EdVerify(k ed25519.PublicKey, m, sig []byte) bool {
	if len(k) != 32 {
		panic("ed25519: bad public key length")
	}
	return len(sig) == 64 && spec.FnBool("edverify", []byte(k), m, sig)
}

//govc:model math/rand.Read
func Model_RandRead(b []byte) (int, error) {
	copy(b, spec.Fn("random", 64))
	return len(b), nil
}
