package words

import (
	"math/rand"

	"verif.local/spec"
)

func Gen_TwoLists(r *rand.Rand) ([]byte, []byte) {
	a, b := make([]byte, []int{2, 5, 16}[r.Intn(3)]), make([]byte, []int{2, 16}[r.Intn(2)])
	r.Read(a)
	r.Read(b)
	return a, b
}

// What has been read or written stays as it is when something else is.
//
//govc:prop C04
//govc:func ToBytes
//govc:canon
//govc:opaque
//govc:bounded data of 2, 5 and 16 bytes
//govc:len a 2,5,16
//govc:len b 2,16
//govc:gen TwoLists
func Contract_TwoLists(a, b []byte) {
	v, err := FromBytes("en", a)
	spec.EnsuresN("written", err == nil)
	v0 := append([]string{}, v...)
	w, err := FromBytes("en", b)
	spec.EnsuresN("second written", err == nil)
	spec.EnsuresN("first list still the same", sameWords(v, v0))
	x, err := ToBytes("en", v)
	if err != nil {
		return
	}
	x0 := spec.Copy(x)
	ToBytes("en", w)
	spec.EnsuresN("first data still the same", spec.BytesEq(x, x0))
	spec.EnsuresN("lists still the same", sameWords(v, v0))
}
