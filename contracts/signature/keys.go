package signature

import (
	"math/rand"

	"verif.local/spec"
)

// algorithmOf lists the algorithms: none, the known ones, and pointers to
// them, as unmarshaling makes them.
//
//govc:helper
func algorithmOf(k int) Algorithm {
	switch k {
	case 1:
		return Null
	case 2:
		return Ed25519
	case 3:
		return Secp256k1
	case 4:
		return &Null
	case 5:
		return &Ed25519
	case 6:
		return &Secp256k1
	}
	return nil
}

//govc:helper
func sameKey(a, b keyBase) bool {
	return SameAlgorithm(a.Algorithm(), b.Algorithm()) && spec.BytesEq(a.KeyBytes(), b.KeyBytes()) && spec.BytesEq(a.ExtraBytes(), b.ExtraBytes())
}

func bytesN(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	r.Read(b)
	return b
}

func extras(r *rand.Rand) int {
	if r.Intn(6) == 0 {
		return []int{127, 128, 255, 256, 257, 300, 65535, 65536}[r.Intn(8)]
	}
	return r.Intn(3) * r.Intn(40)
}

func Gen_Public(r *rand.Rand) (int, []byte, []byte) {
	a := r.Intn(7)
	n := PublicKey{keyBase{algorithm: algorithmOf(a)}}.Size()
	return a, bytesN(r, n), bytesN(r, extras(r))
}

func Gen_Private(r *rand.Rand) (int, []byte, []byte) {
	a := r.Intn(7)
	n := PrivateKey{keyBase{algorithm: algorithmOf(a)}}.Size()
	return a, bytesN(r, n), bytesN(r, extras(r))
}

//govc:prop C13
//govc:func (*PublicKey).Unmarshal
//govc:len a 0..6
//govc:gen Public
//govc:noprune
func Contract_PublicBinary(a int, k, x []byte) {
	spec.Requires(len(x) < 1<<31) // MessagePack lengths have 32 bits
	p, err := RawPublicKey(algorithmOf(a), k, x)
	if err != nil {
		spec.EnsuresN("refused only for its size", len(k) != PublicKey{keyBase{algorithm: algorithmOf(a)}}.Size())
		return
	}
	b, err := p.Marshal()
	spec.EnsuresN("can be written", err == nil)
	q := PublicKey{keyBase{Ed25519, []byte{1, 2}, []byte{3}}} // holding another key
	err = q.Unmarshal(b)
	spec.EnsuresN("can be read", err == nil)
	spec.EnsuresN("same key", sameKey(p.keyBase, q.keyBase))
	spec.EnsuresN("key bytes", spec.BytesEq(q.KeyBytes(), k) && spec.BytesEq(q.ExtraBytes(), x))
}

//govc:prop C13
//govc:func (*PrivateKey).Unmarshal
//govc:len a 0..6
//govc:gen Private
//govc:noprune
func Contract_PrivateBinary(a int, k, x []byte) {
	spec.Requires(len(x) < 1<<31) // MessagePack lengths have 32 bits
	p, err := RawPrivateKey(algorithmOf(a), k, x)
	if err != nil {
		spec.EnsuresN("refused only for its size", len(k) != PrivateKey{keyBase{algorithm: algorithmOf(a)}}.Size())
		return
	}
	b, err := p.Marshal()
	spec.EnsuresN("can be written", err == nil)
	q := PrivateKey{keyBase{Ed25519, []byte{1, 2}, []byte{3}}} // holding another key
	err = q.Unmarshal(b)
	spec.EnsuresN("can be read", err == nil)
	spec.EnsuresN("same key", sameKey(p.keyBase, q.keyBase))
	spec.EnsuresN("key bytes", spec.BytesEq(q.KeyBytes(), k) && spec.BytesEq(q.ExtraBytes(), x))
}

// The MessagePack form is appended to what is there, and reading it leaves what
// follows.
//
//govc:prop C13
//govc:func (*PublicKey).UnmarshalMsg
//govc:len a 0..6
//govc:gen PublicMsg
//govc:noprune
func Contract_PublicMsg(a int, k, x, before, after []byte) {
	spec.Requires(len(x) < 1<<31)
	p, err := RawPublicKey(algorithmOf(a), k, x)
	if err != nil {
		return
	}
	b, err := p.MarshalMsg(before[:len(before):len(before)])
	spec.EnsuresN("can be written", err == nil)
	spec.EnsuresN("appended", len(b) > len(before) && spec.BytesEq(b[:len(before)], before))
	spec.EnsuresN("size estimate is an upper bound", len(b)-len(before) <= p.Msgsize())
	q := PublicKey{keyBase{Ed25519, []byte{1, 2}, []byte{3}}}
	m := append(b[len(before):len(b):len(b)], after...)
	rest, err := q.UnmarshalMsg(m)
	spec.EnsuresN("can be read", err == nil)
	spec.EnsuresN("rest", spec.BytesEq(rest, after))
	spec.EnsuresN("same key", sameKey(p.keyBase, q.keyBase))
}

func Gen_PublicMsg(r *rand.Rand) (int, []byte, []byte, []byte, []byte) {
	a, k, x := Gen_Public(r)
	return a, k, x, bytesN(r, r.Intn(5)), bytesN(r, r.Intn(5))
}

// The text form.
//
//govc:prop C13
//govc:func (*PublicKey).UnmarshalText
//govc:len a 0..6
//govc:gen Public
//govc:noprune
func Contract_PublicText(a int, k, x []byte) {
	spec.Requires(len(x) < 1<<31)
	p, err := RawPublicKey(algorithmOf(a), k, x)
	if err != nil {
		return
	}
	s, err := p.MarshalString()
	spec.EnsuresN("can be written", err == nil)
	spec.EnsuresN("prefix", len(s) > 4 && s[:4] == "npub")
	spec.EnsuresN("full string", p.FullString() == s)
	q, err := ParsePublicKey(s)
	spec.EnsuresN("can be read", err == nil)
	spec.EnsuresN("same key", sameKey(p.keyBase, q.keyBase))
	any, err := ParseKey(s)
	spec.EnsuresN("recognized", err == nil && IsPublic(any) == true && IsPrivate(any) == false)
	spec.EnsuresN("same key when recognized", spec.BytesEq(any.KeyBytes(), q.KeyBytes()) && spec.BytesEq(any.ExtraBytes(), q.ExtraBytes()))
	q = &PublicKey{keyBase{Ed25519, []byte{1, 2}, []byte{3}}}
	err = q.UnmarshalText([]byte(s))
	spec.EnsuresN("same key over another", err == nil && sameKey(p.keyBase, q.keyBase))
}

// The MessagePack form is appended to what is there, and reading it leaves what
// follows.
//
//govc:prop C13
//govc:func (*PrivateKey).UnmarshalMsg
//govc:len a 0..6
//govc:gen PrivateMsg
//govc:noprune
func Contract_PrivateMsg(a int, k, x, before, after []byte) {
	spec.Requires(len(x) < 1<<31)
	p, err := RawPrivateKey(algorithmOf(a), k, x)
	if err != nil {
		return
	}
	b, err := p.MarshalMsg(before[:len(before):len(before)])
	spec.EnsuresN("can be written", err == nil)
	spec.EnsuresN("appended", len(b) > len(before) && spec.BytesEq(b[:len(before)], before))
	spec.EnsuresN("size estimate is an upper bound", len(b)-len(before) <= p.Msgsize())
	q := PrivateKey{keyBase{Ed25519, []byte{1, 2}, []byte{3}}}
	m := append(b[len(before):len(b):len(b)], after...)
	rest, err := q.UnmarshalMsg(m)
	spec.EnsuresN("can be read", err == nil)
	spec.EnsuresN("rest", spec.BytesEq(rest, after))
	spec.EnsuresN("same key", sameKey(p.keyBase, q.keyBase))
}

func Gen_PrivateMsg(r *rand.Rand) (int, []byte, []byte, []byte, []byte) {
	a, k, x := Gen_Private(r)
	return a, k, x, bytesN(r, r.Intn(5)), bytesN(r, r.Intn(5))
}

// The text form.
//
//govc:prop C13
//govc:func (*PrivateKey).UnmarshalText
//govc:len a 0..6
//govc:gen Private
//govc:noprune
func Contract_PrivateText(a int, k, x []byte) {
	spec.Requires(len(x) < 1<<31)
	p, err := RawPrivateKey(algorithmOf(a), k, x)
	if err != nil {
		return
	}
	s, err := p.MarshalString()
	spec.EnsuresN("can be written", err == nil)
	spec.EnsuresN("prefix", len(s) > 4 && s[:4] == "npvt")
	spec.EnsuresN("full string", p.FullString() == s)
	q, err := ParsePrivateKey(s)
	spec.EnsuresN("can be read", err == nil)
	spec.EnsuresN("same key", sameKey(p.keyBase, q.keyBase))
	any, err := ParseKey(s)
	spec.EnsuresN("recognized", err == nil && IsPublic(any) == false && IsPrivate(any) == true)
	spec.EnsuresN("same key when recognized", spec.BytesEq(any.KeyBytes(), q.KeyBytes()) && spec.BytesEq(any.ExtraBytes(), q.ExtraBytes()))
	q = &PrivateKey{keyBase{Ed25519, []byte{1, 2}, []byte{3}}}
	err = q.UnmarshalText([]byte(s))
	spec.EnsuresN("same key over another", err == nil && sameKey(p.keyBase, q.keyBase))
}
