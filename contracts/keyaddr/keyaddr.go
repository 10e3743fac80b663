package keyaddr

import (
	"encoding/base64"
	"math/rand"

	"github.com/ndau/ndaumath/pkg/address"
	"github.com/ndau/ndaumath/pkg/bip32"
	"github.com/ndau/ndaumath/pkg/key"
	"github.com/ndau/ndaumath/pkg/signature"
	"verif.local/spec"
)

//govc:needs key bip32 signature address words

func Gen_Key(r *rand.Rand) (k, chain, fp []byte, depth byte, num uint32, private bool, n int32) {
	k, chain, fp = make([]byte, 32), make([]byte, 32), make([]byte, 3)
	r.Read(k)
	r.Read(chain)
	r.Read(fp)
	private = r.Intn(2) == 0
	if !private {
		k = bip32.PrivateToPublic(k)
	}
	n = int32(r.Uint32())
	if r.Intn(2) == 0 {
		n = []int32{0, 1, 0x7fffffff, -1, -0x80000000, 44}[r.Intn(6)]
	}
	return k, chain, fp, byte(r.Intn(256)), r.Uint32(), private, n
}

//govc:helper
func zzMake(k, chain, fp []byte, depth byte, num uint32, private bool) (*key.ExtendedKey, *Key) {
	if private {
		spec.Requires(len(k) == 32)
	} else {
		spec.Requires(len(k) == 33)
	}
	spec.Requires(len(chain) == 32 && len(fp) == 3)
	e := key.NewExtendedKey(k, chain, fp, depth, num, private)
	t, err := e.MarshalText()
	spec.EnsuresN("has a text", err == nil)
	return e, &Key{Key: string(t)}
}

// zzIs: the wrapped result is the text of the extended key.
//
//govc:helper
func zzIs(got *Key, gerr error, want *key.ExtendedKey, werr error) bool {
	if werr != nil {
		return gerr != nil && got == nil
	}
	t, err := want.MarshalText()
	return err == nil && gerr == nil && got != nil && got.Key == string(t)
}

// Children.
//
//govc:prop C21
//govc:func (*Key).Child
//govc:gen Key
//govc:noprune
//govc:uses Model_Child
func Contract_Child(k, chain, fp []byte, depth byte, num uint32, private bool, n int32) {
	e, kk := zzMake(k, chain, fp, depth, num, private)
	old := kk.Key
	c, err := kk.Child(n)
	if n < 0 {
		spec.EnsuresN("negative index refused", c == nil && err != nil)
		return
	}
	want, werr := e.Child(uint32(n))
	spec.EnsuresN("child of the key", zzIs(c, err, want, werr))
	spec.EnsuresN("key unchanged", kk.Key == old)
}

// Hardened children.
//
//govc:prop C21
//govc:func (*Key).HardenedChild
//govc:gen Key
//govc:noprune
//govc:uses Model_HardenedChild
func Contract_HardenedChild(k, chain, fp []byte, depth byte, num uint32, private bool, n int32) {
	e, kk := zzMake(k, chain, fp, depth, num, private)
	c, err := kk.HardenedChild(n)
	if n < 0 {
		spec.EnsuresN("negative index refused", c == nil && err != nil)
		return
	}
	want, werr := e.HardenedChild(uint32(n))
	spec.EnsuresN("hardened child of the key", zzIs(c, err, want, werr))
}

// Public keys, kinds and conversions.
//
//govc:prop C21
//govc:func (*Key).ToPublic
//govc:gen Key
//govc:noprune
func Contract_ToPublic(k, chain, fp []byte, depth byte, num uint32, private bool, _ int32) {
	e, kk := zzMake(k, chain, fp, depth, num, private)
	p, err := kk.ToPublic()
	want, werr := e.Public()
	spec.EnsuresN("public key of the key", zzIs(p, err, want, werr))
	b, err := kk.IsPrivate()
	spec.EnsuresN("kind", err == nil && b == private)
	b, err = p.IsPrivate()
	spec.EnsuresN("kind of the public key", err == nil && !b)
}

//govc:prop C21
//govc:func (*Key).ToPublicKey
//govc:gen Key
//govc:noprune
func Contract_ToPublicKey(k, chain, fp []byte, depth byte, num uint32, private bool, _ int32) {
	e, kk := zzMake(k, chain, fp, depth, num, private)
	p, err := kk.ToPublicKey()
	want, werr := e.SPubKey()
	spec.EnsuresN("converted", err == nil && werr == nil)
	spec.EnsuresN("key", spec.BytesEq(p.KeyBytes(), want.KeyBytes()))
	spec.EnsuresN("extra", spec.BytesEq(p.ExtraBytes(), want.ExtraBytes()))
	spec.EnsuresN("algorithm", signature.SameAlgorithm(p.Algorithm(), signature.Secp256k1))
	back, err := KeyFromPublic(p)
	pub, _ := e.Public()
	spec.EnsuresN("and back", zzIs(back, err, pub, nil))
}

//govc:prop C21
//govc:func (*Key).ToPrivateKey
//govc:gen Key
//govc:noprune
func Contract_ToPrivateKey(k, chain, fp []byte, depth byte, num uint32, private bool, _ int32) {
	e, kk := zzMake(k, chain, fp, depth, num, private)
	p, err := kk.ToPrivateKey()
	spec.EnsuresN("only of private keys", (err == nil) == private)
	if err != nil {
		return
	}
	spec.EnsuresN("key", spec.BytesEq(p.KeyBytes(), k))
	want, _ := e.SPrivKey()
	spec.EnsuresN("extra", spec.BytesEq(p.ExtraBytes(), want.ExtraBytes()))
	spec.EnsuresN("algorithm", signature.SameAlgorithm(p.Algorithm(), signature.Secp256k1))
	back, err := KeyFromPrivate(p)
	spec.EnsuresN("and back", zzIs(back, err, e, nil))
}

// Extended keys to and from their wrappers.
//
//govc:prop C21
//govc:func KeyFromExtended
//govc:gen Key
//govc:noprune
func Contract_KeyFromExtended(k, chain, fp []byte, depth byte, num uint32, private bool, _ int32) {
	e, kk := zzMake(k, chain, fp, depth, num, private)
	w, err := KeyFromExtended(e)
	spec.EnsuresN("its text", err == nil && w.Key == kk.Key)
	f, err := FromString(kk.Key)
	spec.EnsuresN("from its text", err == nil && f.Key == kk.Key)
	x, err := kk.ToExtended()
	spec.EnsuresN("back", err == nil && x.IsPrivate() == private && spec.BytesEq(x.Bytes(), k) && x.Depth() == depth)
}

func Gen_Text(r *rand.Rand) string {
	k, chain, fp, depth, num, private, _ := Gen_Key(r)
	e := key.NewExtendedKey(k, chain, fp, depth, num, private)
	t, _ := e.MarshalText()
	if r.Intn(2) == 0 {
		t[r.Intn(len(t))] = byte(r.Intn(256))
	}
	return string(t)
}

// Texts of keys, new or old.
//
//govc:prop C21
//govc:func FromString
//govc:gen Text
//govc:noprune
//govc:uses Model_UnmarshalText Model_FromOld
func Contract_FromString(s string) {
	f, err := FromString(s)
	o, oerr := FromOldString(s)
	old, olderr := key.FromOldSerialization(s)
	spec.EnsuresN("old form", zzIs(o, oerr, old, olderr))
	var e key.ExtendedKey
	if e.UnmarshalText([]byte(s)) == nil {
		spec.EnsuresN("new form", zzIs(f, err, &e, nil))
	} else {
		spec.EnsuresN("new or old form", zzIs(f, err, old, olderr))
	}
}

func Gen_Path(r *rand.Rand) (string, string, string) {
	ps := []string{"/", "/44'", "/44'/1", "/1", "/44'/1/2'/3", "44", ""}
	return Gen_Text(r), ps[r.Intn(len(ps))], ps[r.Intn(len(ps))]
}

// Derivation by paths.
//
//govc:prop C21
//govc:func DeriveFrom
//govc:gen Path
//govc:noprune
//govc:uses Model_UnmarshalText Model_FromOld Model_DeriveFrom
func Contract_DeriveFrom(s, parent, child string) {
	d, err := DeriveFrom(s, parent, child)
	var e key.ExtendedKey
	if e.UnmarshalText([]byte(s)) != nil {
		old, olderr := key.FromOldSerialization(s)
		if olderr != nil {
			spec.EnsuresN("no key", d == nil && err != nil)
			return
		}
		e = *old
	}
	// the text in between does not matter
	t, _ := e.MarshalText()
	var f key.ExtendedKey
	if f.UnmarshalText(t) != nil {
		return
	}
	want, werr := f.DeriveFrom(parent, child)
	spec.EnsuresN("derived from the key", zzIs(d, err, want, werr))
}

func Gen_Seed(r *rand.Rand) string {
	b := make([]byte, r.Intn(70))
	r.Read(b)
	s := base64.StdEncoding.EncodeToString(b)
	if r.Intn(4) == 0 {
		s = base64.URLEncoding.EncodeToString(b)
	}
	if r.Intn(8) == 0 {
		s = base64.RawStdEncoding.EncodeToString(b)
	}
	return s
}

// Master keys.
//
//govc:prop C21
//govc:func NewKey
//govc:gen Seed
//govc:noprune
//govc:uses Model_NewMaster
func Contract_NewKey(s string) {
	k, err := NewKey(s)
	seed, serr := base64.StdEncoding.DecodeString(s)
	if serr != nil {
		spec.EnsuresN("only base 64", k == nil && err != nil)
		return
	}
	want, werr := key.NewMaster(seed)
	spec.EnsuresN("master key of the seed", zzIs(k, err, want, werr))
}

func Gen_Sign(r *rand.Rand) (k, chain, fp []byte, depth byte, num uint32, private bool, msg string) {
	k, chain, fp, depth, num, private, _ = Gen_Key(r)
	return k, chain, fp, depth, num, private, Gen_Seed(r)
}

// Signatures.
//
//govc:prop C21
//govc:func (*Key).Sign
//govc:gen Sign
//govc:noprune
func Contract_Sign(k, chain, fp []byte, depth byte, num uint32, private bool, text string) {
	e, kk := zzMake(k, chain, fp, depth, num, private)
	s, err := kk.Sign(text)
	msg, merr := base64.StdEncoding.DecodeString(text)
	if merr != nil || !private {
		spec.EnsuresN("only base 64, only private keys", s == nil && err != nil)
		return
	}
	p, perr := e.SPrivKey()
	spec.EnsuresN("signed", perr == nil && err == nil)
	w := p.Sign(msg)
	t, terr := w.MarshalText()
	spec.EnsuresN("signature by the key", terr == nil && s.Signature == string(t))
	sig, err := s.ToSignature()
	spec.EnsuresN("can be read", err == nil && spec.BytesEq(sig.Bytes(), w.Bytes()) && signature.SameAlgorithm(sig.Algorithm(), signature.Secp256k1))
}

// Addresses.
//
//govc:prop C21
//govc:func (*Key).NdauAddress
//govc:gen Key
//govc:noprune
func Contract_NdauAddress(k, chain, fp []byte, depth byte, num uint32, private bool, _ int32) {
	e, kk := zzMake(k, chain, fp, depth, num, private)
	a, err := kk.NdauAddress()
	want, werr := address.Generate(address.KindUser, e.PubKeyBytes())
	spec.EnsuresN("address of the public key", werr == nil && err == nil && a.Address == want.String())
	p, _ := kk.ToPublic()
	b, err := p.NdauAddress()
	spec.EnsuresN("the same for the public key", err == nil && b.Address == a.Address)
}
