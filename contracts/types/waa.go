package types

import (
	"math/rand"

	"verif.local/spec"
)

func Gen_WAA(r *rand.Rand) (int64, int64, int64, int64) {
	return zzRand(r), zzRand(r), zzRand(r), zzRand(r)
}

// A withdrawal only lets the age grow by the time that passed; with a deposit
// the age becomes the average, weighted by the amounts, of that age for the
// previous balance and of 0 for the deposit.
//
//govc:prop C26
//govc:func (*Duration).UpdateWeightedAverageAge
//govc:gen WAA
func Contract_UpdateWeightedAverageAge(age, since, qty, bal int64) {
	w := zz(age).Add(zz(since))
	p := w.Mul(zz(bal))
	spec.Requires(p.Lt(spec.Pow10(34)) && p.Neg().Lt(spec.Pow10(34)))
	d := Duration(age)
	err := d.UpdateWeightedAverageAge(Duration(since), Ndau(qty), Ndau(bal))
	nb := zz(bal).Add(zz(qty))
	if qty >= 0 && zz(0).Lt(nb) {
		w = p.Quo(nb)
	}
	ok := zz(age).Add(zz(since)).IsI64() && (qty < 0 || nb.IsI64()) && w.IsI64()
	spec.EnsuresN("an error exactly on overflow", (err == nil) == ok)
	if err == nil {
		spec.EnsuresN("weighted average", zz(int64(d)).Eq(w))
	} else {
		spec.EnsuresN("unchanged after an error", int64(d) == age)
	}
}

// For amounts and times that are not negative, the age never becomes negative
// and never exceeds the time that has passed.
//
//govc:prop C26
//govc:func (*Duration).UpdateWeightedAverageAge
//govc:gen WAA
func Contract_AgeGrowsNoFasterThanTime(age, since, qty, bal int64) {
	spec.Requires(age >= 0 && since >= 0 && bal >= 0)
	w := zz(age).Add(zz(since))
	spec.Requires(w.Mul(zz(bal)).Lt(spec.Pow10(34)))
	d := Duration(age)
	err := d.UpdateWeightedAverageAge(Duration(since), Ndau(qty), Ndau(bal))
	if err == nil {
		spec.EnsuresN("not negative", d >= 0)
		spec.EnsuresN("no faster than time", zz(int64(d)).Le(w))
	}
}
