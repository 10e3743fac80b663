package unsigned

import (
	"math/rand"

	"verif.local/spec"
)

// The least integers that are not less than e^k (calculated with 60 digits).
//
//govc:helper
func zzExp() []string {
	return []string{
		"1", "3", "8", "21", "55",
		"149", "404", "1097", "2981", "8104",
		"22027", "59875", "162755", "442414", "1202605",
		"3269018", "8886111", "24154953", "65659970", "178482301",
		"485165196", "1318815735", "3584912847", "9744803447", "26489122130",
		"72004899338", "195729609429", "532048240602", "1446257064292", "3931334297145",
		"10686474581525", "29048849665248", "78962960182681", "214643579785917", "583461742527455",
		"1586013452313431", "4311231547115196", "11719142372802612", "31855931757113757", "86593400423993747",
		"235385266837019986", "639843493530054950", "1739274941520501048", "4727839468229346562", "12851600114359308276",
	}
}

func Gen_Ln(r *rand.Rand) uint64 {
	x := r.Uint64() >> uint(r.Intn(64))
	if r.Intn(2) == 0 {
		x = bounds[r.Intn(len(bounds))] + uint64(r.Intn(3)) - 1
	}
	return x
}

// The integer logarithm of x is the greatest k with e^k <= x; that of 0 is -1.
//
//govc:prop C28
//govc:func LnInt
//govc:gen Ln
func Contract_LnInt(x uint64) {
	k := LnInt(x)
	w := -1
	for i, s := range zzExp() {
		if !zz(x).Lt(spec.Dec(s)) {
			w = i
		}
	}
	spec.EnsuresN("logarithm", k == w)
}
