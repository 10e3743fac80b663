package signature

import (
	"math/rand"

	"verif.local/spec"
)

// hostile makes input that is nearly right.
func hostile(r *rand.Rand, b []byte) []byte {
	b = append([]byte{}, b...)
	for k := r.Intn(3); k > 0 && len(b) > 0; k-- {
		switch r.Intn(5) {
		case 0:
			b[r.Intn(len(b))] = byte(r.Intn(256))
		case 1:
			b = b[:r.Intn(len(b)+1)]
		case 2:
			b = append(b, byte(r.Intn(256)))
		case 3:
			i := r.Intn(len(b))
			b = append(b[:i], b[i+1:]...)
		case 4:
			b[r.Intn(min(len(b), 6))] = byte(r.Intn(256))
		}
	}
	return b
}

func Gen_HostilePublic(r *rand.Rand) []byte {
	a, k, x := Gen_Public(r)
	if r.Intn(4) == 0 {
		k = bytesN(r, r.Intn(40))
	}
	b, _ := keyBase{algorithmOf(a), k, x}.Marshal()
	return hostile(r, b)
}

func Gen_HostilePrivate(r *rand.Rand) []byte {
	a, k, x := Gen_Private(r)
	if r.Intn(4) == 0 {
		k = bytesN(r, r.Intn(40))
	}
	b, _ := keyBase{algorithmOf(a), k, x}.Marshal()
	return hostile(r, b)
}

func Gen_HostileSig(r *rand.Rand) []byte {
	a, d := Gen_Sig(r)
	if r.Intn(4) == 0 {
		d = bytesN(r, r.Intn(40))
	}
	b, _ := Signature{algorithmOf(a), d}.Marshal()
	return hostile(r, b)
}

func Gen_HostileKeyText(r *rand.Rand) string {
	a, k, x := Gen_Public(r)
	b, _ := PublicKey{keyBase{algorithmOf(a), k, x}}.MarshalText()
	if r.Intn(2) == 0 {
		a, k, x = Gen_Private(r)
		b, _ = PrivateKey{keyBase{algorithmOf(a), k, x}}.MarshalText()
	}
	return string(hostile(r, b))
}

func Gen_HostileSigText(r *rand.Rand) string {
	a, d := Gen_Sig(r)
	b, _ := Signature{algorithmOf(a), d}.MarshalText()
	return string(hostile(r, b))
}

//govc:helper
func knownAlgorithm(al Algorithm) bool {
	return SameAlgorithm(al, Null) || SameAlgorithm(al, Ed25519) || SameAlgorithm(al, Secp256k1)
}

//govc:prop C15 C13
//govc:func (*PublicKey).Unmarshal
//govc:gen HostilePublic
//govc:noprune
func Contract_HostilePublic(b []byte) {
	var q PublicKey
	if q.Unmarshal(b) == nil {
		spec.EnsuresN("known algorithm", knownAlgorithm(q.Algorithm()))
		spec.EnsuresN("right size", len(q.KeyBytes()) == q.Size())
	}
}

//govc:prop C15 C13
//govc:func (*PublicKey).UnmarshalMsg
//govc:gen HostilePublic
//govc:noprune
func Contract_HostilePublicMsg(b []byte) {
	var p PublicKey
	if rest, err := p.UnmarshalMsg(b); err == nil {
		spec.EnsuresN("known algorithm in message", knownAlgorithm(p.Algorithm()))
		spec.EnsuresN("right size in message", len(p.KeyBytes()) == p.Size())
		spec.EnsuresN("rest is the end", len(rest) <= len(b) && spec.BytesEq(rest, b[len(b)-len(rest):]))
	}
}

//govc:prop C15 C13
//govc:func (*PrivateKey).Unmarshal
//govc:gen HostilePrivate
//govc:noprune
func Contract_HostilePrivate(b []byte) {
	var q PrivateKey
	if q.Unmarshal(b) == nil {
		spec.EnsuresN("known algorithm", knownAlgorithm(q.Algorithm()))
		spec.EnsuresN("right size", len(q.KeyBytes()) == q.Size())
	}
}

//govc:prop C15 C13
//govc:func (*PrivateKey).UnmarshalMsg
//govc:gen HostilePrivate
//govc:noprune
func Contract_HostilePrivateMsg(b []byte) {
	var p PrivateKey
	if rest, err := p.UnmarshalMsg(b); err == nil {
		spec.EnsuresN("known algorithm in message", knownAlgorithm(p.Algorithm()))
		spec.EnsuresN("right size in message", len(p.KeyBytes()) == p.Size())
		spec.EnsuresN("rest is the end", len(rest) <= len(b) && spec.BytesEq(rest, b[len(b)-len(rest):]))
	}
}

//govc:prop C15 C14
//govc:func (*Signature).Unmarshal
//govc:gen HostileSig
//govc:noprune
func Contract_HostileSig(b []byte) {
	var q Signature
	if q.Unmarshal(b) == nil {
		spec.EnsuresN("known algorithm", knownAlgorithm(q.Algorithm()))
		spec.EnsuresN("right size", q.Size() < 0 || len(q.Bytes()) == q.Size())
	}
}

//govc:prop C15 C14
//govc:func (*Signature).UnmarshalMsg
//govc:gen HostileSig
//govc:noprune
func Contract_HostileSigMsg(b []byte) {
	var p Signature
	if rest, err := p.UnmarshalMsg(b); err == nil {
		spec.EnsuresN("known algorithm in message", knownAlgorithm(p.Algorithm()))
		spec.EnsuresN("right size in message", p.Size() < 0 || len(p.Bytes()) == p.Size())
		spec.EnsuresN("rest is the end", len(rest) <= len(b) && spec.BytesEq(rest, b[len(b)-len(rest):]))
	}
}

//govc:prop C15 C13
//govc:func ParseKey
//govc:gen HostileKeyText
//govc:noprune
func Contract_HostileKeyText(s string) {
	k, err := ParseKey(s)
	if err == nil {
		spec.EnsuresN("known algorithm", knownAlgorithm(k.Algorithm()))
		spec.EnsuresN("public or private by its prefix", IsPublic(k) == (s[:4] == "npub") && IsPrivate(k) == (s[:4] == "npvt"))
	}
}

//govc:prop C15 C13
//govc:func ParsePublicKey
//govc:gen HostileKeyText
//govc:noprune
func Contract_HostilePublicKeyText(s string) {
	p, err := ParsePublicKey(s)
	spec.EnsuresN("public key of the right size", err != nil || len(p.KeyBytes()) == p.Size())
}

//govc:prop C15 C13
//govc:func ParsePrivateKey
//govc:gen HostileKeyText
//govc:noprune
func Contract_HostilePrivateKeyText(s string) {
	v, err := ParsePrivateKey(s)
	spec.EnsuresN("private key of the right size", err != nil || len(v.KeyBytes()) == v.Size())
}

//govc:prop C15 C14
//govc:func ParseSignature
//govc:gen HostileSigText
//govc:noprune
func Contract_HostileSigText(s string) {
	g, err := ParseSignature(s)
	if err == nil {
		spec.EnsuresN("known algorithm", knownAlgorithm(g.Algorithm()))
		spec.EnsuresN("right size", g.Size() < 0 || len(g.Bytes()) == g.Size())
	}
}
