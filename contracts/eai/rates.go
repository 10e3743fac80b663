package eai

import (
	"math/rand"

	"github.com/ndau/ndaumath/pkg/types"
	"verif.local/spec"
)

//govc:helper
func zz(x int64) spec.Z { return spec.I(x) }

// The rate in force at a point of time: that of the last row that does not
// begin later.
//
//govc:helper
func zzRateAt(t RateTable, p spec.Z) Rate {
	for i := len(t) - 1; i >= 0; i-- {
		if zz(int64(t[i].From)).Le(p) {
			return t[i].Rate
		}
	}
	return 0
}

//govc:helper
func zzTable(rows []int64) RateTable {
	t := RateTable{}
	for i := 0; i+1 < len(rows); i += 2 {
		t = append(t, RTRow{From: types.Duration(rows[i]), Rate: Rate(rows[i+1])})
		spec.Requires(i == 0 || rows[i-2] < rows[i])
	}
	return t
}

func zzRand(r *rand.Rand) int64 {
	x := int64(r.Uint64()) >> uint(r.Intn(64))
	if r.Intn(3) == 0 {
		x = int64(r.Intn(20)) - 2
	}
	return x
}

func zzRandTable(r *rand.Rand, most int) []int64 {
	var rows []int64
	x := int64(r.Intn(4))
	for i := r.Intn(most + 1); i > 0; i-- {
		rows = append(rows, x, int64(r.Intn(1000)))
		x += 1 + int64(r.Intn(5))
	}
	return rows
}

func Gen_RateAt(r *rand.Rand) (rows []int64, p int64) {
	rows = zzRandTable(r, 4)
	return rows, int64(r.Intn(30) - 3)
}

//govc:prop C29
//govc:func RateTable.RateAt
//govc:len rows 0,2,4,6,8,10,12
//govc:bounded tables of up to 6 rows
//govc:gen RateAt
func Contract_RateAt(rows []int64, p int64) {
	spec.Requires(len(rows) <= 12 && len(rows)%2 == 0)
	t := zzTable(rows)
	spec.EnsuresN("the last row that does not begin later", t.RateAt(types.Duration(p)) == zzRateAt(t, zz(p)))
}

func Gen_Slice(r *rand.Rand) (rows []int64, a, b, off, freeze, at int64) {
	rows = zzRandTable(r, 4)
	a = int64(r.Intn(20))
	b = a + int64(r.Intn(15)) - 1
	off, freeze, at = int64(r.Intn(10)), int64(r.Intn(12)-3), a+int64(r.Intn(15))
	if r.Intn(2) == 0 {
		freeze = 0
	}
	return
}

// A slice of a rate table covers the time from a to b, without gap, and at every
// moment of it has the rate that the table has at that moment, moved by the
// offset, but not later than the moment of freezing, which lies so much before
// the end.
//
//govc:prop C29
//govc:func RateTable.SliceF
//govc:len rows 0,2,4,6,8
//govc:bounded tables of up to 4 rows
//govc:gen Slice
func Contract_SliceF(rows []int64, a, b, off, freeze, at int64) {
	spec.Requires(len(rows) <= 8 && len(rows)%2 == 0)
	t := zzTable(rows)
	const lim = 1 << 61
	spec.Requires(a > -lim && a < lim && b > -lim && b < lim && off > -lim && off < lim && freeze > -lim && freeze < lim)
	for i := 0; i+1 < len(rows); i += 2 {
		spec.Requires(rows[i] > -lim && rows[i] < lim)
	}
	rs := t.SliceF(types.Duration(a), types.Duration(b), types.Duration(off), types.Duration(freeze))
	if b <= a {
		spec.EnsuresN("nothing for no time", len(rs) == 1 && rs[0].Duration == 0 && rs[0].Rate == 0)
		return
	}
	fr := freeze
	if fr < 0 {
		fr = -fr
	}
	sum := zz(a)
	spec.Requires(a <= at && at < b)
	when := zz(at).Add(zz(off))
	if notify := zz(b).Add(zz(off)).Sub(zz(fr)); notify.Lt(when) {
		when = notify
	}
	want := zzRateAt(t, when)
	found := false
	for _, r := range rs {
		spec.EnsuresN("no empty part", r.Duration >= 0)
		next := sum.Add(zz(int64(r.Duration)))
		if sum.Le(zz(at)) && zz(at).Lt(next) {
			found = true
			spec.EnsuresN("rate of that moment", r.Rate == want)
		}
		sum = next
	}
	spec.EnsuresN("every moment is covered", found)
	spec.EnsuresN("the parts together are the whole time", sum.Eq(zz(b)))
}

// Without freezing it is the same as SliceF with no time of freezing.
//
//govc:prop C29
//govc:func RateTable.Slice
//govc:len rows 0,2,4,6
//govc:bounded tables of up to 3 rows
//govc:gen Slice
func Contract_Slice(rows []int64, a, b, off, freeze, at int64) {
	spec.Requires(len(rows) <= 6 && len(rows)%2 == 0)
	t := zzTable(rows)
	const lim = 1 << 61
	spec.Requires(a > -lim && a < lim && b > -lim && b < lim && off > -lim && off < lim)
	rs := t.Slice(types.Duration(a), types.Duration(b), types.Duration(off))
	ws := t.SliceF(types.Duration(a), types.Duration(b), types.Duration(off), 0)
	ok := len(rs) == len(ws)
	for i := 0; ok && i < len(rs); i++ {
		ok = rs[i] == ws[i]
	}
	spec.EnsuresN("the same", ok)
}

//govc:helper
type zzLock struct {
	notice  types.Duration
	unlocks *types.Timestamp
	bonus   Rate
}

//govc:helper
func (l zzLock) GetNoticePeriod() types.Duration { return l.notice }

//govc:helper
func (l zzLock) GetUnlocksOn() *types.Timestamp { return l.unlocks }

//govc:helper
func (l zzLock) GetBonusRate() Rate { return l.bonus }

func Gen_EAIRate(r *rand.Rand) (rows []int64, age, at, notice, unlock, bonus int64, locked, notified bool) {
	rows = zzRandTable(r, 4)
	age, at, notice, unlock, bonus = int64(r.Intn(20)), int64(r.Intn(20)), int64(r.Intn(10)), int64(r.Intn(30)), int64(r.Intn(5))
	return rows, age, at, notice, unlock, bonus, r.Intn(2) == 0, r.Intn(2) == 0
}

// The current rate is that of the table for the age of the account; for a
// locked account for the age it will have when it could be unlocked at the
// earliest, or when it unlocks if that has been announced, plus the bonus.
//
//govc:prop C31
//govc:func CalculateEAIRate
//govc:len rows 0,2,4,6
//govc:bounded tables of up to 3 rows
//govc:gen EAIRate
func Contract_CalculateEAIRate(rows []int64, age, at, notice, unlock, bonus int64, locked, notified bool) {
	spec.Requires(len(rows) <= 6 && len(rows)%2 == 0)
	t := zzTable(rows)
	const lim = 1 << 61
	spec.Requires(age > -lim && age < lim && notice >= 0 && notice < lim && at >= 0 && unlock >= 0 && unlock < lim && at < lim && bonus >= 0 && bonus < lim)
	for i := 1; i < len(rows); i += 2 {
		spec.Requires(rows[i] >= 0 && rows[i] < lim)
	}
	var lock Lock
	l := zzLock{notice: types.Duration(notice), bonus: Rate(bonus)}
	if notified {
		ts := types.Timestamp(unlock)
		l.unlocks = &ts
	}
	if locked {
		lock = l
	}
	got := CalculateEAIRate(types.Duration(age), lock, t, types.Timestamp(at))
	p, b := zz(age), zz(0)
	if locked && !notified {
		p, b = p.Add(zz(notice)), zz(bonus)
	}
	if locked && notified && at < unlock {
		p, b = p.Add(zz(unlock).Sub(zz(at))), zz(bonus)
	}
	spec.EnsuresN("rate of the table and bonus", zz(int64(got)).Eq(zz(int64(zzRateAt(t, p))).Add(b)))
}
