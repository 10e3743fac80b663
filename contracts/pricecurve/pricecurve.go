package pricecurve

import (
	"math/rand"

	"github.com/ndau/ndaumath/pkg/constants"
	"github.com/ndau/ndaumath/pkg/ndauerr"
	"github.com/ndau/ndaumath/pkg/types"
	"verif.local/spec"
)

const zzBlock = SaleBlockQty * constants.QuantaPerUnit

// What signed.MulDiv does; C22 proves it.
//
//govc:model github.com/ndau/ndaumath/pkg/signed.MulDiv
//govc:optional
func Model_MulDiv(v, n, d int64) (int64, error) {
	if d == 0 {
		return 0, ndauerr.ErrDivideByZero
	}
	p := zz(v).Mul(zz(n))
	spec.Assert(p.Lt(spec.Pow10(34)) && p.Neg().Lt(spec.Pow10(34)))
	q := p.Quo(zz(d))
	if !q.IsI64() {
		return 0, ndauerr.ErrOverflow
	}
	return spec.ToBig(q).Int64(), nil
}

//govc:model phase1
//govc:optional
func Model_phase1(block uint64, use9999 bool) Nanocent {
	x := spec.FnZ("phase1", spec.U(block), use9999)
	spec.Assume(zz(0).Le(x) && x.Lt(spec.Pow2(63)))
	return Nanocent(spec.ToBig(x).Int64())
}

//govc:model phase23
//govc:optional
func Model_phase23(block int64) (Nanocent, error) {
	x := spec.FnZ("phase23", zz(block))
	spec.Assume(zz(0).Le(x) && x.Lt(spec.Pow2(63)))
	return Nanocent(spec.ToBig(x).Int64()), nil
}

func Gen_Sold(r *rand.Rand) int64 {
	n := r.Int63n(32000 * zzBlock)
	if r.Intn(3) == 0 {
		n = int64([]int{0, 1, 2, 9999, 10000, 10001, 29999, 30000, 30001}[r.Intn(9)])*zzBlock + int64(r.Intn(5)) - 2
		if n < 0 {
			n = 0
		}
	}
	return n
}

// The price depends only on the block of 1000 ndau that the next ndau is in:
// by phase 1 up to block 10000, by phases 2 and 3 up to block 29999, after which
// the price stays $500450.83.
//
//govc:prop C32
//govc:func PriceAtUnit
//govc:func PriceAtUnit9999
//govc:func PriceAtUnit10000
//govc:uses Model_phase1 Model_phase23
//govc:gen Sold
func Contract_Phases(sold int64) {
	spec.Requires(sold >= 0)
	x, err := PriceAtUnit(types.Ndau(sold))
	y, err2 := PriceAtUnit9999(types.Ndau(sold))
	z, err3 := PriceAtUnit10000(types.Ndau(sold))
	spec.EnsuresN("no error", err == nil && err2 == nil && err3 == nil)
	spec.EnsuresN("the proper curve", x == y)
	b := sold / 100000000000
	if b <= 10000 {
		spec.EnsuresN("phase 1", x == phase1(uint64(b), true))
		spec.EnsuresN("phase 1, old curve", z == phase1(uint64(b), false))
	} else if b < 30000 {
		w, _ := phase23(b)
		spec.EnsuresN("phases 2 and 3", x == w && z == w)
	} else {
		spec.EnsuresN("final price", x == 50045083000000000 && z == x)
	}
}

func Gen_Block23(r *rand.Rand) int64 { return 10001 + int64(r.Intn(19999)) }

// In phases 2 and 3 the price is within $3 of the documented curve
// -41633 - 8.286618 b + 0.00167424 b^2 - 2.654015e-8 b^3.
//
//govc:prop C32
//govc:func phase23
//govc:uses Model_MulDiv
//govc:gen Block23
func Contract_Curve23(b int64) {
	spec.Requires(b > 10000 && b < 30000)
	x, err := phase23(b)
	spec.EnsuresN("no error", err == nil)
	// in units of 10^-14 dollars; a nanocent is 1000 of them
	y := zz(b).Mul(zz(b)).Mul(zz(167424000000)).Sub(zz(b).Mul(zz(b)).Mul(zz(b)).Mul(zz(2654015))).Sub(zz(b).Mul(zz(828661800000000))).Sub(zz(41633).Mul(spec.Pow10(14)))
	// x is a whole number of dollars
	p := zz(int64(x)).Mul(zz(1000))
	spec.EnsuresN("not more than $3 above", p.Le(y.Add(zz(300000000000000))))
	spec.EnsuresN("not more than $1 below", y.Le(p.Add(zz(100000000000000))))
}
