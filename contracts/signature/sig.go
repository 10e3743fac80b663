package signature

import (
	"math/rand"

	"verif.local/spec"
)

func Gen_Sig(r *rand.Rand) (int, []byte) {
	a := r.Intn(7)
	n := Signature{algorithm: algorithmOf(a)}.Size()
	if n < 0 {
		n = r.Intn(80)
	}
	return a, bytesN(r, n)
}

//govc:helper
func sameSig(a, b Signature) bool {
	return SameAlgorithm(a.Algorithm(), b.Algorithm()) && spec.BytesEq(a.data, b.data)
}

//govc:helper
func otherSig() Signature { return Signature{Ed25519, []byte{1, 2}} }

//govc:prop C14
//govc:func (*Signature).Unmarshal
//govc:len a 0..6
//govc:gen Sig
func Contract_SigBinary(a int, d []byte) {
	spec.Requires(len(d) < 1<<31)
	p, err := RawSignature(algorithmOf(a), d)
	size := Signature{algorithm: algorithmOf(a)}.Size()
	spec.EnsuresN("refused only for its size", (err != nil) == (size >= 0 && len(d) != size))
	if err != nil {
		return
	}
	b, err := p.Marshal()
	spec.EnsuresN("can be written", err == nil)
	q := otherSig()
	err = q.Unmarshal(b)
	spec.EnsuresN("can be read", err == nil)
	spec.EnsuresN("same signature", sameSig(*p, q))
	spec.EnsuresN("data", spec.BytesEq(q.Bytes(), d))
}

//govc:prop C14
//govc:func (*Signature).UnmarshalMsg
//govc:len a 0..6
//govc:gen SigMsg
func Contract_SigMsg(a int, d, before, after []byte) {
	spec.Requires(len(d) < 1<<31)
	p, err := RawSignature(algorithmOf(a), d)
	if err != nil {
		return
	}
	b, err := p.MarshalMsg(before[:len(before):len(before)])
	spec.EnsuresN("can be written", err == nil)
	spec.EnsuresN("appended", len(b) > len(before) && spec.BytesEq(b[:len(before)], before))
	spec.EnsuresN("size estimate is an upper bound", len(b)-len(before) <= p.Msgsize())
	q := otherSig()
	m := append(b[len(before):len(b):len(b)], after...)
	rest, err := q.UnmarshalMsg(m)
	spec.EnsuresN("can be read", err == nil)
	spec.EnsuresN("rest", spec.BytesEq(rest, after))
	spec.EnsuresN("same signature", sameSig(*p, q))
}

func Gen_SigMsg(r *rand.Rand) (int, []byte, []byte, []byte) {
	a, d := Gen_Sig(r)
	return a, d, bytesN(r, r.Intn(5)), bytesN(r, r.Intn(5))
}

//govc:prop C14
//govc:func (*Signature).UnmarshalText
//govc:len a 0..6
//govc:gen Sig
func Contract_SigText(a int, d []byte) {
	spec.Requires(len(d) < 1<<31)
	p, err := RawSignature(algorithmOf(a), d)
	if err != nil {
		return
	}
	s, err := p.MarshalString()
	spec.EnsuresN("can be written", err == nil)
	q, err := ParseSignature(s)
	spec.EnsuresN("can be read", err == nil)
	spec.EnsuresN("same signature", sameSig(*p, *q))
	o := otherSig()
	err = o.UnmarshalText([]byte(s))
	spec.EnsuresN("same signature over another", err == nil && sameSig(*p, o))
}
