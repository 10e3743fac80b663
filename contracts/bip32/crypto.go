package bip32

import (
	"crypto/elliptic"
	"math/big"

	"github.com/btcsuite/btcd/btcec"
	"verif.local/spec"
)

// The assumed contracts of btcec.  The points of secp256k1 are a cyclic group
// of prime order zzN generated by G, so every point is k*G for exactly one k
// with 0 <= k < N; (ptX(k), ptY(k)) are its coordinates, (0,0) standing for
// the point at infinity, and dlog is the inverse.  No finite point has a zero
// coordinate.

//govc:helper
func zzOrder() spec.Z {
	return spec.Dec("115792089237316195423570985008687907852837564279074904382605163141518161494337")
}

//govc:model github.com/btcsuite/btcd/btcec.S256
func Model_S256() *btcec.KoblitzCurve {
	return &btcec.KoblitzCurve{CurveParams: &elliptic.CurveParams{N: spec.ToBig(zzOrder())}}
}

// zzPoint is the point k*G.
//
//govc:helper
func zzPoint(k spec.Z) (x, y *big.Int) {
	zx, zy := spec.FnZ("ptX", k), spec.FnZ("ptY", k)
	zero := spec.I(0)
	spec.Assume(zero.Eq(k) == zero.Eq(zx) && zero.Eq(k) == zero.Eq(zy))
	spec.Assume(zero.Le(zx) && zero.Le(zy))
	spec.Assume(spec.FnZ("dlog", zx, zy).Eq(k))
	return spec.ToBig(zx), spec.ToBig(zy)
}

// zzDlog is the number of a point.
//
//govc:helper
func zzDlog(x, y *big.Int) spec.Z {
	k := spec.FnZ("dlog", spec.FromBig(x), spec.FromBig(y))
	spec.Assume(spec.I(0).Le(k) && k.Lt(zzOrder()))
	return k
}

//govc:model (*github.com/btcsuite/btcd/btcec.KoblitzCurve).ScalarBaseMult
func Model_ScalarBaseMult(c *btcec.KoblitzCurve, k []byte) (*big.Int, *big.Int) {
	return zzPoint(spec.SeqNum(k).Mod(zzOrder()))
}

//govc:model (*github.com/btcsuite/btcd/btcec.KoblitzCurve).Add
func Model_Add(c *btcec.KoblitzCurve, x1, y1, x2, y2 *big.Int) (*big.Int, *big.Int) {
	return zzPoint(zzDlog(x1, y1).Add(zzDlog(x2, y2)).Mod(zzOrder()))
}

// Serialized points parse as what they were; what parses from 33 bytes
// serializes to those bytes.
//
//govc:model (*github.com/btcsuite/btcd/btcec.PublicKey).SerializeCompressed
func Model_SerializeCompressed(p *btcec.PublicKey) []byte {
	x, y := spec.FromBig(p.X), spec.FromBig(p.Y)
	b := spec.Fn("ser", 33, x, y)
	spec.Assume(b[0] == 2 || b[0] == 3)
	if !spec.I(0).Eq(zzDlog(p.X, p.Y)) {
		spec.Assume(spec.FnBool("parses", b))
		spec.Assume(spec.FnZ("parseX", b).Eq(x) && spec.FnZ("parseY", b).Eq(y))
	}
	return b
}

//govc:model github.com/btcsuite/btcd/btcec.ParsePubKey
func Model_ParsePubKey(b []byte, curve *btcec.KoblitzCurve) (*btcec.PublicKey, error) {
	if len(b) != 33 && len(b) != 65 || !spec.FnBool("parses", b) {
		return nil, zzErr
	}
	x, y := spec.FnZ("parseX", b), spec.FnZ("parseY", b)
	spec.Assume(spec.I(0).Le(x) && spec.I(0).Le(y))
	p := &btcec.PublicKey{Curve: curve, X: spec.ToBig(x), Y: spec.ToBig(y)}
	spec.Assume(!spec.I(0).Eq(zzDlog(p.X, p.Y)))
	if len(b) == 33 {
		spec.Assume(b[0] == 2 || b[0] == 3)
		spec.Assume(spec.BytesEq(spec.Fn("ser", 33, x, y), b))
	}
	return p, nil
}

var zzErr error = zzError{}

type zzError struct{}

func (zzError) Error() string { return "assumed error" }

// ECDSA.  Signing with a key from 1 to N-1 makes a signature that verifies,
// and whose serialization parses as that signature.
//
//govc:model github.com/btcsuite/btcd/btcec.PrivKeyFromBytes
func Model_PrivKeyFromBytes(curve elliptic.Curve, pk []byte) (*btcec.PrivateKey, *btcec.PublicKey) {
	x, y := zzPoint(spec.SeqNum(pk).Mod(zzOrder()))
	p := &btcec.PrivateKey{D: spec.ToBig(spec.SeqNum(pk))}
	p.Curve, p.X, p.Y = curve, x, y
	return p, &btcec.PublicKey{Curve: curve, X: x, Y: y}
}

//govc:model (*github.com/btcsuite/btcd/btcec.PrivateKey).Sign
func Model_Sign(p *btcec.PrivateKey, hash []byte) (*btcec.Signature, error) {
	d := spec.FromBig(p.D)
	r, s := spec.FnZ("ecdsaR", d, hash), spec.FnZ("ecdsaS", d, hash)
	if spec.I(0).Lt(d) && d.Lt(zzOrder()) {
		spec.Assume(spec.FnBool("ecdsaOK", r, s, hash, d))
	}
	return &btcec.Signature{R: spec.ToBig(r), S: spec.ToBig(s)}, nil
}

//govc:model (*github.com/btcsuite/btcd/btcec.Signature).Serialize
func Model_SigSerialize(sig *btcec.Signature) []byte {
	r, s := spec.FromBig(sig.R), spec.FromBig(sig.S)
	b := spec.Fn("sigser", -1, r, s)
	spec.Assume(len(b) >= 8 && len(b) <= 72)
	spec.Assume(spec.FnBool("sigparses", b))
	spec.Assume(spec.FnZ("sigR", b).Eq(r) && spec.FnZ("sigS", b).Eq(s))
	return b
}

//govc:model github.com/btcsuite/btcd/btcec.ParseSignature
func Model_ParseSignature(b []byte, curve elliptic.Curve) (*btcec.Signature, error) {
	if !spec.FnBool("sigparses", b) {
		return nil, zzErr
	}
	return &btcec.Signature{R: spec.ToBig(spec.FnZ("sigR", b)), S: spec.ToBig(spec.FnZ("sigS", b))}, nil
}

//govc:model (*github.com/btcsuite/btcd/btcec.Signature).Verify
func Model_SigVerify(sig *btcec.Signature, hash []byte, pub *btcec.PublicKey) bool {
	return spec.FnBool("ecdsaOK", spec.FromBig(sig.R), spec.FromBig(sig.S), hash, zzDlog(pub.X, pub.Y))
}
