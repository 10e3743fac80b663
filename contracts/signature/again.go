package signature

import (
	"math/rand"

	"verif.local/spec"
)

func Gen_Again(r *rand.Rand) ([]byte, []byte) { return Gen_Bytes(r), Gen_Bytes(r) }

// Checksummed data stays as it is when a checksum is added to other data.
//
//govc:prop C12
//govc:func AddChecksum
//govc:gen Again
//govc:noprune
func Contract_AddAgain(a, b []byte) {
	x := AddChecksum(a)
	x0 := spec.Copy(x)
	y := AddChecksum(b)
	spec.EnsuresN("first still the same", spec.BytesEq(x, x0))
	CheckChecksum(y)
	CheckChecksum(x)
	spec.EnsuresN("checking changes nothing", spec.BytesEq(x, x0))
}

func Gen_TwoKeys(r *rand.Rand) (a int, k, x []byte, b int, l, y []byte) {
	a, k, x = Gen_Public(r)
	b, l, y = Gen_Public(r)
	return
}

// What has been written or read stays as it is when another key is.
//
//govc:prop C13
//govc:func (*PublicKey).Unmarshal
//govc:len a 2,3
//govc:len b 2,3
//govc:gen TwoKeys
//govc:noprune
func Contract_TwoKeys(a int, k, x []byte, b int, l, y []byte) {
	spec.Requires(a >= 0 && a <= 6 && b >= 0 && b <= 6)
	spec.Requires(len(x) < 1<<31 && len(y) < 1<<31)
	p, err := RawPublicKey(algorithmOf(a), k, x)
	if err != nil {
		return
	}
	q, err := RawPublicKey(algorithmOf(b), l, y)
	if err != nil {
		return
	}
	m, err := p.Marshal()
	spec.EnsuresN("written", err == nil)
	m0 := spec.Copy(m)
	n, err := q.Marshal()
	spec.EnsuresN("second written", err == nil)
	spec.EnsuresN("first still the same", spec.BytesEq(m, m0))
	var r, s PublicKey
	spec.EnsuresN("read", r.Unmarshal(m) == nil)
	spec.EnsuresN("second read", s.Unmarshal(n) == nil)
	spec.EnsuresN("first still the same key", spec.BytesEq(r.KeyBytes(), k) && spec.BytesEq(r.ExtraBytes(), x))
	// what was read from can be overwritten
	if len(m) > 0 {
		m[len(m)-1] ^= 1
	}
	spec.EnsuresN("shares no memory with the message", spec.BytesEq(r.KeyBytes(), k) && spec.BytesEq(r.ExtraBytes(), x))
}
