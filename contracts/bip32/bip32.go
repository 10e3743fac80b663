package bip32

import (
	"bytes"
	"crypto/hmac"
	"crypto/sha512"
	"math/rand"

	"github.com/btcsuite/btcd/btcec"
	"verif.local/spec"
)

func Gen_Seed(r *rand.Rand) []byte {
	b := make([]byte, r.Intn(70))
	r.Read(b)
	return b
}

// The master key is the HMAC-SHA512 of the seed under the key "ndau seed".
//
//govc:prop C17
//govc:func NewMaster
//govc:gen Seed
//govc:noprune
func Contract_NewMaster(seed []byte) {
	old := spec.Copy(seed)
	il, ir, err := NewMaster(seed)
	if len(seed) < 16 || len(seed) > 64 {
		spec.EnsuresN("seed length refused", err == ErrInvalidSeedLen)
		return
	}
	mac := hmac.New(sha512.New, []byte("ndau seed"))
	mac.Write(old)
	sum := mac.Sum(nil)
	n := spec.SeqNum(sum[:32])
	usable := spec.I(0).Lt(n) && n.Lt(zzOrder())
	spec.EnsuresN("unusable seed refused", (err == nil) == usable)
	spec.EnsuresN("kind of error", err == nil || err == ErrUnusableSeed)
	if err == nil {
		spec.EnsuresN("key", spec.BytesEq(il[:], sum[:32]))
		spec.EnsuresN("chain code", spec.BytesEq(ir[:], sum[32:]))
	}
	spec.EnsuresN("seed unchanged", spec.BytesEq(seed, old))
}

func Gen_SeedSource(r *rand.Rand) (byte, []byte) {
	return byte(r.Intn(70)), Gen_Seed(r)
}

// A seed is the next bytes of the source, as many as asked for.
//
//govc:prop C17 C16
//govc:func GenerateSeed
//govc:gen SeedSource
func Contract_GenerateSeed(n byte, src []byte) {
	s, err := GenerateSeed(n, bytes.NewReader(src))
	spec.EnsuresN("refused for a bad length or a short source", (err == nil) == (n >= 16 && n <= 64 && len(src) >= int(n)))
	if err == nil {
		spec.EnsuresN("bytes of the source", spec.BytesEq(s, src[:n]))
	}
}

func Gen_Private(r *rand.Rand) []byte {
	b := make([]byte, 32)
	r.Read(b)
	if r.Intn(4) == 0 {
		for i := range b[:r.Intn(32)] {
			b[i] = 0
		}
	}
	return b
}

// The public key of a number is that multiple of G, in compressed form.
//
//govc:prop C17 C16
//govc:func PrivateToPublic
//govc:gen Private
//govc:noprune
func Contract_PrivateToPublic(k []byte) {
	spec.Requires(len(k) == 32)
	p := PrivateToPublic(k)
	x, y := btcec.S256().ScalarBaseMult(k)
	pub := btcec.PublicKey{Curve: btcec.S256(), X: x, Y: y}
	spec.EnsuresN("compressed point", spec.BytesEq(p, pub.SerializeCompressed()))
	n := spec.SeqNum(k)
	spec.EnsuresN("order of the group", spec.FromBig(btcec.S256().N).Eq(zzOrder()))
	if spec.I(0).Lt(n) && n.Lt(zzOrder()) {
		q, err := btcec.ParsePubKey(p, btcec.S256())
		spec.EnsuresN("a point of the curve", err == nil && q.X.Cmp(x) == 0 && q.Y.Cmp(y) == 0)
	}
}
