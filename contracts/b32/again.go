package b32

import (
	"math/rand"

	"verif.local/spec"
)

func Gen_Again(r *rand.Rand) ([]byte, []byte) {
	a, b := make([]byte, r.Intn(60)), make([]byte, r.Intn(60))
	r.Read(a)
	r.Read(b)
	return a, b
}

// What has been decoded or calculated stays as it is when something else is.
//
//govc:prop C08
//govc:func Decode
//govc:noprune
//govc:gen Again
func Contract_Again(a, b []byte) {
	s, t := Encode(a), Encode(b)
	x, err := Decode(s)
	spec.EnsuresN("decoded", err == nil)
	_, err = Decode(t)
	spec.EnsuresN("second decoded", err == nil)
	spec.EnsuresN("first data", spec.BytesEq(x, a))
	k := Checksum24(a)
	k0 := spec.Copy(k)
	l := Checksum16(a)
	l0 := spec.Copy(l)
	Checksum24(b)
	Checksum16(b)
	spec.EnsuresN("first checksums", spec.BytesEq(k, k0) && spec.BytesEq(l, l0))
	spec.EnsuresN("arguments", len(s) == len(Encode(x)))
}
