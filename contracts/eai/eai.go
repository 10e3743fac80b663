package eai

import (
	"errors"
	"math/rand"

	"github.com/ndau/ndaumath/pkg/constants"
	"github.com/ndau/ndaumath/pkg/ndauerr"
	"github.com/ndau/ndaumath/pkg/types"
	"github.com/ndau/ndaumath/pkg/unsigned"
	"verif.local/spec"
)

// What unsigned.MulDiv does; C22 proves it.
//
//govc:model github.com/ndau/ndaumath/pkg/unsigned.MulDiv
//govc:optional
func Model_MulDiv(v, n, d uint64) (uint64, error) {
	if d == 0 {
		return 0, ndauerr.ErrDivideByZero
	}
	p := spec.U(v).Mul(spec.U(n))
	spec.Assert(p.Lt(spec.Pow10(34)))
	q := p.Quo(spec.U(d))
	if !q.IsU64() {
		return 0, ndauerr.ErrOverflow
	}
	return spec.ToBig(q).Uint64(), nil
}

// What unsigned.ExpFrac does, as far as it matters here; C27 proves it.
//
//govc:model github.com/ndau/ndaumath/pkg/unsigned.ExpFrac
//govc:optional
func Model_ExpFrac(n, d uint64) (uint64, error) {
	spec.Assert(spec.U(d).Lt(spec.Pow10(16)))
	if n > d {
		return 0, errors.New("fraction")
	}
	x := spec.FnZ("exp", spec.U(n), spec.U(d))
	spec.Assume(spec.U(d).Add(spec.U(n)).Le(x) && x.Le(spec.U(d).Mul(spec.U(3))))
	if n == 0 {
		x = spec.U(d)
	}
	return spec.ToBig(x).Uint64(), nil
}

// The factor as some number from 1 to 3^5 or an error.
//
//govc:model calculateEAIFactor
//govc:optional
func Model_factor(blockTime, last types.Timestamp, age types.Duration, lock Lock, t RateTable, fix bool) (uint64, error) {
	b, l, a := zz(int64(blockTime)), zz(int64(last)), zz(int64(age))
	if !spec.FnBool("factorOK", b, l, a, fix) {
		return 0, errors.New("factor")
	}
	x := spec.FnZ("factor", b, l, a, fix)
	spec.Assume(zz(constants.RateDenominator).Le(x) && x.Le(zz(243*constants.RateDenominator)))
	return spec.ToBig(x).Uint64(), nil
}

func Gen_EAI(r *rand.Rand) (balance, block, last, age int64, fix bool) {
	const day = 86400 * 1000000
	block = int64(r.Intn(4000)) * day
	last = block - int64(r.Intn(300))*day
	if last < 0 {
		last = 0
	}
	return int64(r.Uint64() >> uint(1+r.Intn(63))), block, last, int64(r.Intn(1000)) * day, r.Intn(2) == 0
}

// The EAI is the balance times what the factor exceeds 1 by, rounded down.
//
//govc:prop C30
//govc:func Calculate
//govc:uses Model_factor Model_MulDiv
//govc:gen EAI
func Contract_Calculate(balance, block, last, age int64, fix bool) {
	spec.Requires(balance >= 0 && block >= 0 && last >= 0)
	b, l, a := types.Timestamp(block), types.Timestamp(last), types.Duration(age)
	f, ferr := calculateEAIFactor(b, l, a, nil, DefaultUnlockedEAI, fix)
	x, err := Calculate(types.Ndau(balance), b, l, a, nil, DefaultUnlockedEAI, fix)
	if ferr != nil {
		spec.EnsuresN("no factor", err != nil && x == 0)
		return
	}
	d := zz(constants.RateDenominator)
	w := zz(balance).Mul(spec.U(f).Sub(d)).Quo(d)
	spec.EnsuresN("an error exactly if it does not fit", (err == nil) == w.IsI64())
	if err == nil {
		spec.EnsuresN("balance times excess", zz(int64(x)).Eq(w))
	} else {
		spec.EnsuresN("no amount", x == 0)
	}
}

// Any one or two periods of not more than the time asked for, with rates of not
// more than 100 percent; C29 proves that the periods are those of the table.
//
//govc:model (github.com/ndau/ndaumath/pkg/eai.RateTable).SliceF
//govc:optional
func Model_SliceF(rt RateTable, from, to, offset, freeze types.Duration) RateSlice {
	spec.Assert(len(rt) == 1)
	t, r := zz(int64(rt[0].From)), zz(int64(rt[0].Rate))
	a, b, o, f := zz(int64(from)), zz(int64(to)), zz(int64(offset)), zz(int64(freeze))
	spec.Assert(b.Sub(a).Lt(spec.Pow2(61)))
	rs := RateSlice{zzPeriod(spec.FnZ("duration", t, r, a, b, o, f), spec.FnZ("rate", t, r, a, b, o, f))}
	if spec.FnBool("two", t, r, a, b, o, f) {
		rs = append(rs, zzPeriod(spec.FnZ("duration2", t, r, a, b, o, f), spec.FnZ("rate2", t, r, a, b, o, f)))
	}
	return rs
}

//govc:helper
func zzPeriod(d, r spec.Z) RSRow {
	spec.Assume(zz(0).Le(d) && d.Lt(spec.Pow2(61)))
	spec.Assume(zz(0).Le(r) && r.Le(zz(constants.RateDenominator)))
	return RSRow{Duration: types.Duration(spec.ToBig(d).Int64()), Rate: Rate(spec.ToBig(r).Int64())}
}

//govc:helper
func zzProduct(rs RateSlice, bonus Rate) (spec.Z, bool) {
	d := zz(constants.RateDenominator)
	f := d
	for _, r := range rs {
		e := zz(int64(r.Rate)).Add(zz(int64(bonus))).Mul(zz(int64(r.Duration))).Quo(zz(types.Year))
		if d.Lt(e) {
			return zz(0), false
		}
		x, _ := unsigned.ExpFrac(spec.ToBig(e).Uint64(), constants.RateDenominator)
		f = f.Mul(spec.U(x)).Quo(d)
	}
	return f, true
}

//govc:helper
func zzRates(rows []int64) RateTable {
	for i := 0; i+1 < len(rows); i += 2 {
		spec.Requires(rows[i] >= 0 && rows[i] < 1<<60 && rows[i+1] >= 0 && rows[i+1] <= constants.RateDenominator)
	}
	return zzTable(rows)
}

func Gen_Factor(r *rand.Rand) (rows []int64, block, last, age, notice, unlock, bonus int64, locked, notified, fix bool) {
	const day = 86400 * 1000000
	x := int64(r.Intn(100))
	for i := r.Intn(3); i > 0; i-- {
		rows = append(rows, x*day, int64(r.Intn(50))*10000000000)
		x += 1 + int64(r.Intn(100))
	}
	block = int64(r.Intn(4000)) * day
	last = block - int64(r.Intn(300))*day
	if last < 0 {
		last = 0
	}
	age, notice, unlock, bonus = int64(r.Intn(1000))*day, int64(r.Intn(200))*day, block+int64(r.Intn(300)-150)*day, int64(r.Intn(5))*10000000000
	if unlock < 0 {
		unlock = 0
	}
	return rows, block, last, age, notice, unlock, bonus, r.Intn(2) == 0, r.Intn(2) == 0, r.Intn(2) == 0
}

//govc:helper
func zzLockOf(notice, unlock, bonus int64, locked, notified bool) Lock {
	if !locked {
		return nil
	}
	l := zzLock{notice: types.Duration(notice), bonus: Rate(bonus)}
	if notified {
		ts := types.Timestamp(unlock)
		l.unlocks = &ts
	}
	return l
}

//govc:helper
func zzLimits(block, last, age, notice, unlock, bonus int64) {
	const lim = 1 << 60
	spec.Requires(block >= 0 && block < lim && last >= 0 && last <= block && age >= 0 && age < lim)
	spec.Requires(notice >= 0 && notice < lim && unlock >= 0 && unlock < lim && bonus >= 0 && bonus <= constants.RateDenominator)
}

// While an account is not locked, or its lock has not expired, the factor is
// the product of the exponentials of rate (with bonus) times duration in years,
// over the periods of the rate table from the age at the last calculation
// to the age now; a lock moves the ages by the notice period, and from the
// announcement on the rate is frozen.
//
//govc:prop C30
//govc:func calculateEAIFactor
//govc:noprune
//govc:uses Model_MulDiv Model_ExpFrac
//govc:len rows 0,2
//govc:bounded rate tables of up to 1 row
//govc:gen Factor
func Contract_FactorRunning(rows []int64, block, last, age, notice, unlock, bonus int64, locked, notified, fix bool) {
	spec.Requires(len(rows) == 0 || len(rows) == 2)
	zzRunning(rows, block, last, age, notice, unlock, bonus, locked, notified, fix)
}

// The same with any periods that a rate table may give.
//
//govc:prop C30
//govc:func calculateEAIFactor
//govc:noprune
//govc:uses Model_MulDiv Model_ExpFrac Model_SliceF
//govc:len rows 2
//govc:bounded up to 2 periods
//govc:gen Factor
func Contract_FactorPeriods(rows []int64, block, last, age, notice, unlock, bonus int64, locked, notified, fix bool) {
	spec.Requires(len(rows) == 2)
	zzRunning(rows, block, last, age, notice, unlock, bonus, locked, notified, fix)
}

//govc:helper
func zzRunning(rows []int64, block, last, age, notice, unlock, bonus int64, locked, notified, fix bool) {
	zzLimits(block, last, age, notice, unlock, bonus)
	t := zzRates(rows)
	spec.Requires(!locked || !notified || block <= unlock)
	// the announcement is made before the present, and after the epoch
	spec.Requires(!locked || !notified || notice <= unlock)
	f, err := calculateEAIFactor(types.Timestamp(block), types.Timestamp(last), types.Duration(age), zzLockOf(notice, unlock, bonus, locked, notified), t, fix)
	start := age - (block - last)
	if start < 0 {
		start = 0
	}
	var offset, freeze int64
	var extra Rate
	if locked {
		offset, extra = notice, Rate(bonus)
		if notified {
			freeze = block - (unlock - notice)
		}
	}
	w, ok := zzProduct(t.SliceF(types.Duration(start), types.Duration(age), types.Duration(offset), types.Duration(freeze)), extra)
	spec.EnsuresN("an error exactly if an exponent exceeds 1", (err == nil) == ok)
	if err == nil {
		spec.EnsuresN("product over the periods", spec.U(f).Eq(w))
		spec.EnsuresN("at least 1", zz(constants.RateDenominator).Le(spec.U(f)))
	}
}

// No time, no gain.
//
//govc:prop C30
//govc:noprune
//govc:func calculateEAIFactor
//govc:uses Model_MulDiv Model_ExpFrac
//govc:len rows 0,2,4
//govc:bounded rate tables of up to 2 rows
//govc:gen Factor
func Contract_FactorNoTime(rows []int64, block, last, age, notice, unlock, bonus int64, locked, notified, fix bool) {
	spec.Requires(len(rows) <= 4 && len(rows)%2 == 0)
	zzLimits(block, block, age, notice, unlock, bonus)
	t := zzRates(rows)
	spec.Requires(!locked || !notified || block <= unlock)
	f, err := calculateEAIFactor(types.Timestamp(block), types.Timestamp(block), types.Duration(age), zzLockOf(notice, unlock, bonus, locked, notified), t, fix)
	spec.EnsuresN("factor 1", err == nil && f == constants.RateDenominator)
}

// When the lock has expired, the factor is the product of that up to the
// expiry, with the lock, and that since, without it; if the last calculation
// was after the expiry, the lock does not matter any more.
//
//govc:prop C30
//govc:noprune
//govc:func calculateEAIFactor
//govc:uses Model_MulDiv Model_ExpFrac Model_SliceF
//govc:len rows 2
//govc:bounded up to 2 periods on each side of the expiry
//govc:gen Factor
func Contract_FactorExpired(rows []int64, block, last, age, notice, unlock, bonus int64, fix, locked, notified bool) {
	spec.Requires(len(rows) == 2)
	zzLimits(block, last, age, notice, unlock, bonus)
	t := zzRates(rows)
	spec.Requires(unlock < block)
	lock := zzLockOf(notice, unlock, bonus, true, true)
	f, err := calculateEAIFactor(types.Timestamp(block), types.Timestamp(last), types.Duration(age), lock, t, fix)
	if last > unlock {
		if fix {
			w, werr := calculateEAIFactor(types.Timestamp(block), types.Timestamp(last), types.Duration(age), nil, t, fix)
			spec.EnsuresN("as without a lock", f == w && (err == nil) == (werr == nil))
		}
		return
	}
	x, xerr := calculateEAIFactor(types.Timestamp(unlock), types.Timestamp(last), types.Duration(age-(block-unlock)), lock, t, fix)
	y, yerr := calculateEAIFactor(types.Timestamp(block), types.Timestamp(unlock), types.Duration(age), nil, t, fix)
	spec.EnsuresN("an error exactly if a part has one", (err == nil) == (xerr == nil && yerr == nil))
	if err == nil {
		spec.EnsuresN("product of the parts", spec.U(f).Eq(spec.U(x).Mul(spec.U(y)).Quo(zz(constants.RateDenominator))))
	}
}
