package signature

import (
	"crypto/sha256"
	"math/rand"

	"verif.local/spec"
)

func Gen_Bytes(r *rand.Rand) []byte {
	b := make([]byte, r.Intn(80))
	r.Read(b)
	return b
}

// The layout of checksummed data.
//
//govc:prop C12
//govc:func AddChecksum
//govc:gen Bytes
//govc:noprune
func Contract_AddChecksum(b []byte) {
	out := AddChecksum(b)
	n := int(out[0])
	spec.EnsuresN("whole groups of 5 bytes", len(out)%5 == 0)
	spec.EnsuresN("3 to 7 bytes of checksum", n >= 3 && n <= 7)
	spec.EnsuresN("length", len(out) == 1+len(b)+n)
	spec.EnsuresN("data", spec.BytesEq(out[1:1+len(b)], b))
	sum := sha256.Sum224(b)
	spec.EnsuresN("checksum", spec.BytesEq(out[1+len(b):], sum[len(sum)-n:]))
}

// Checksummed data is accepted and unwrapped.
//
//govc:prop C12
//govc:func CheckChecksum
//govc:gen Bytes
//govc:noprune
func Contract_CheckAccepts(b []byte) {
	m, ok := CheckChecksum(AddChecksum(b))
	spec.EnsuresN("accepted", ok)
	spec.EnsuresN("data", spec.BytesEq(m, b))
}

// Whatever is accepted is what AddChecksum makes of the message returned.
//
//govc:prop C12
//govc:func CheckChecksum
//govc:gen Checked
//govc:noprune
func Contract_CheckExact(c []byte) {
	m, ok := CheckChecksum(c)
	if ok {
		spec.EnsuresN("canonical", spec.BytesEq(AddChecksum(m), c))
	}
}

func Gen_Checked(r *rand.Rand) []byte {
	c := AddChecksum(Gen_Bytes(r))
	switch r.Intn(6) {
	case 0:
		c[r.Intn(len(c))] ^= 1 << uint(r.Intn(8))
	case 1:
		c = c[:r.Intn(len(c))]
	case 2:
		c = append(c, byte(r.Intn(256)))
	case 3:
		c[0] = byte(r.Intn(40))
	case 4:
		c = Gen_Bytes(r)
	}
	return c
}

// CheckChecksum is a function of its argument that does not change it; it
// returns for every argument.
//
//govc:prop C12 C15
//govc:func CheckChecksum
//govc:gen Checked
//govc:noprune
func Contract_CheckTotal(c []byte) {
	CheckChecksum(c)
	AddChecksum(c)
}
