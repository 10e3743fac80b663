package signed

import (
	"math/rand"

	"verif.local/spec"
)

// What MulDiv does for fractions between 0 and 1; justified by C22 and by
// Contract_MulDivShrinks.
//
//govc:model MulDiv
//govc:optional
func Model_MulDiv(v, n, d int64) (int64, error) {
	spec.Assert(0 <= v && 0 <= n && zz(v).Lt(spec.Pow10(17)) && zz(n).Lt(spec.Pow10(17)) && n <= d && 0 < d)
	q := spec.FnZ("quotient", zz(v).Mul(zz(n)), zz(d))
	spec.Assume(zz(0).Le(q) && q.Lt(spec.Pow10(17)))
	spec.Assume(q.Le(zz(v)))
	return spec.ToBig(q).Int64(), nil
}

// Scaling by a fraction that is not more than 1 does not make a value greater.
//
//govc:prop C22 C27
//govc:func MulDiv
//govc:gen Three
func Contract_MulDivShrinks(v, n, d int64) {
	spec.Requires(zz(v).Mul(zz(n)).Lt(spec.Pow10(34)) && v >= 0 && n >= 0 && n <= d && d > 0)
	x, err := MulDiv(v, n, d)
	spec.EnsuresN("not greater", err == nil && x >= 0 && x <= v)
}

func Gen_Frac(r *rand.Rand) (int64, int64) {
	d := int64(r.Uint64()>>1) >> uint(11+r.Intn(50))
	n := int64(r.Uint64())
	if r.Intn(4) > 0 {
		n %= d + 1
	}
	switch r.Intn(8) {
	case 0:
		n = d
	case 1:
		d = 1000000000000
		n %= d + 1
	case 2:
		n = 0
	case 3:
		d = -d % 10000000000000000
	}
	if zz(d).Lt(spec.Pow10(16)) && zz(d).Neg().Lt(spec.Pow10(16)) {
		return n, d
	}
	return n % 1000, d % 1000
}

// The exponential of a fraction between 0 and 1, in units of 1/d, is the sum of
// its series 1 + x + x^2/2! + x^3/3! + ..., up to the term for 20, of which
// each term is calculated in units of 1/(10 d), rounded to the nearest unit at
// the end.
//
//govc:prop C27
//govc:func ExpFrac
//govc:uses Model_MulDiv
//govc:noprune
//govc:gen Frac
func Contract_ExpFrac(n, d int64) {
	spec.Requires(0 <= n && zz(n).Lt(spec.Pow10(16)) && 0 <= d && zz(d).Lt(spec.Pow10(16)))
	spec.Requires(n <= d)
	x, err := ExpFrac(n, d)
	spec.EnsuresN("no error", err == nil)
	ten := zz(10)
	p := zz(n).Mul(ten)
	w := zz(d).Mul(ten).Add(p)
	f := zz(1)
	for i := int64(2); i <= 20; i++ {
		if p.Eq(zz(0)) {
			break
		}
		q, _ := MulDiv(spec.ToBig(p).Int64(), n*10, d*10)
		p = zz(q)
		f = f.Mul(zz(i))
		w = w.Add(p.Quo(f))
	}
	spec.EnsuresN("sum of the series", zz(x).Eq(w.Add(zz(5)).Quo(ten)))
}

// It lies between 1 + x and 3.
//
//govc:prop C27
//govc:func ExpFrac
//govc:uses Model_MulDiv
//govc:noprune
//govc:gen Frac
func Contract_ExpFracBounds(n, d int64) {
	spec.Requires(0 <= n && zz(n).Lt(spec.Pow10(16)) && 0 <= d && zz(d).Lt(spec.Pow10(16)))
	spec.Requires(n <= d)
	x, err := ExpFrac(n, d)
	spec.EnsuresN("no error", err == nil)
	spec.EnsuresN("at least 1+x", zz(d).Add(zz(n)).Le(zz(x)))
	spec.EnsuresN("at most 3", zz(x).Le(zz(d).Mul(zz(3))))
	spec.EnsuresN("1 for 0", spec.Implies(n == 0, x == d))
}

// What is not a fraction between 0 and 1 is refused.
//
//govc:prop C27
//govc:func ExpFrac
//govc:uses Model_MulDiv
//govc:gen Two
func Contract_ExpFracRefuses(n, d int64) {
	spec.Requires(!(0 <= n && n <= d))
	x, err := ExpFrac(n, d)
	spec.EnsuresN("refused", err != nil && x == 0)
}
