package types

import (
	"fmt"
	"math"
	"math/rand"
	"time"

	"verif.local/spec"
)

// A duration becomes whole milliseconds of Go time, and the reverse.
//
//govc:prop C25
//govc:func DurationFrom
//govc:func Duration.TimeDuration
//govc:gen One
func Contract_DurationFrom(x int64) {
	d := DurationFrom(time.Duration(x))
	ms := zz(x).Quo(zz(1000000))
	spec.EnsuresN("whole milliseconds", zz(int64(d)).Eq(ms.Mul(zz(1000))))
	spec.EnsuresN("back", zz(int64(d.TimeDuration())).Eq(ms.Mul(zz(1000000))))
}

//govc:helper
func digits(x uint64, n int) bool {
	switch n {
	case 0:
		return x == 0
	case 1:
		return x >= 1 && x <= 9
	case 2:
		return x >= 10 && x <= 99
	case 3:
		return x >= 100 && x <= 999
	case 4:
		return x >= 1000 && x <= 9999
	case 5:
		return x >= 10000 && x <= 99999
	}
	return n == 6 && x >= 100000 && x <= 999999
}

func Gen_Duration(r *rand.Rand) (neg int, y, mo, da, h, m, s, us uint64, late, yn, hn, mn, sn, un int) {
	y, mo, da, h, m, s, us = uint64(r.Intn(292471))>>uint(r.Intn(20)), uint64(r.Intn(12)), uint64(r.Intn(30)), uint64(r.Intn(24)), uint64(r.Intn(60)), uint64(r.Intn(60)), uint64(r.Intn(1000000))>>uint(r.Intn(20))
	n := func(x uint64) int {
		for i := 0; i < 7; i++ {
			if digits(x, i) {
				return i
			}
		}
		return 7
	}
	return r.Intn(2), y, mo, da, h, m, s, us, r.Intn(2), n(y), n(h), n(m), n(s), n(us)
}

// durationText: the numbers of years of 365 days, months of 30 days, days, and
// after a t hours, minutes, seconds and microseconds, as far as they are not 0.
//
//govc:helper
func durationText(neg int, y, mo, da, h, m, s, us uint64) string {
	t := ""
	if neg == 1 {
		t = "-"
	}
	if y > 0 {
		t += fmt.Sprintf("%dy", y)
	}
	if mo > 0 {
		t += fmt.Sprintf("%dm", mo)
	}
	if da > 0 {
		t += fmt.Sprintf("%dd", da)
	}
	if h == 0 && m == 0 && s == 0 && us == 0 {
		if y == 0 && mo == 0 && da == 0 {
			t += "t0s"
		}
		return t
	}
	t += "t"
	if h > 0 {
		t += fmt.Sprintf("%dh", h)
	}
	if m > 0 {
		t += fmt.Sprintf("%dm", m)
	}
	if s > 0 {
		t += fmt.Sprintf("%ds", s)
	}
	if us > 0 {
		t += fmt.Sprintf("%dus", us)
	}
	return t
}

// Every duration is read back from its text.  The numbers of digits split the
// proof into cases.
//
//govc:prop C25
//govc:func Duration.String
//govc:func ParseDuration
//govc:digits
//govc:noprune
//govc:len neg 0..1
//govc:len late 0..1
//govc:len yn 0,1,6
//govc:len hn 0..2
//govc:len mn 0..2
//govc:len sn 0..2
//govc:bounded years and microseconds of 1 or 6 digits, if any (the thorough check has all); the last year before the limits
//govc:len un 0,1,6
//govc:gen Duration
func Contract_DurationText(neg int, y, mo, da, h, m, s, us uint64, late, yn, hn, mn, sn, un int) {
	spec.Requires((neg == 0 || neg == 1) && (late == 0 || late == 1))
	y, mo, da, h, m, s, us = y%292471, mo%12, da%30, h%24, m%60, s%60, us%1000000
	if late == 1 { // the last five days of a year
		mo, da = 12, da%5
	}
	spec.Requires(digits(y, yn) && digits(h, hn) && digits(m, mn) && digits(s, sn) && digits(us, un))
	x := int64((((y*365+mo*30+da)*24+h)*60+m)*60+s)*1000000 + int64(us)
	if neg == 1 {
		spec.Requires(x > 0)
		x = -x
	}
	t := Duration(x).String()
	spec.EnsuresN("text", t == durationText(neg, y, mo, da, h, m, s, us))
	d, err := ParseDuration(t)
	spec.EnsuresN("read back", err == nil && int64(d) == x)
}

// Every duration is read back from its text.  The numbers of digits split the
// proof into cases.
//
//govc:prop C25
//govc:func Duration.String
//govc:func ParseDuration
//govc:digits
//govc:noprune
//govc:len neg 0..1
//govc:len late 0..1
//govc:len yn 0..6
//govc:len hn 0..2
//govc:len mn 0..2
//govc:len sn 0..2
//govc:thorough
//govc:len un 0..6
//govc:gen Duration
func Contract_DurationTextAll(neg int, y, mo, da, h, m, s, us uint64, late, yn, hn, mn, sn, un int) {
	spec.Requires((neg == 0 || neg == 1) && (late == 0 || late == 1))
	y, mo, da, h, m, s, us = y%292471, mo%12, da%30, h%24, m%60, s%60, us%1000000
	if late == 1 { // the last five days of a year
		mo, da = 12, da%5
	}
	spec.Requires(digits(y, yn) && digits(h, hn) && digits(m, mn) && digits(s, sn) && digits(us, un))
	x := int64((((y*365+mo*30+da)*24+h)*60+m)*60+s)*1000000 + int64(us)
	if neg == 1 {
		spec.Requires(x > 0)
		x = -x
	}
	t := Duration(x).String()
	spec.EnsuresN("text", t == durationText(neg, y, mo, da, h, m, s, us))
	d, err := ParseDuration(t)
	spec.EnsuresN("read back", err == nil && int64(d) == x)
}

func Gen_Years(r *rand.Rand) ([]byte, int) {
	w := make([]byte, 1+r.Intn(21))
	for i := range w {
		w[i] = byte('0' + r.Intn(10))
	}
	return w, r.Intn(2)
}

// A number of years is read as what it says, or refused if it does not fit.
//
//govc:prop C25
//govc:func ParseDuration
//govc:noprune
//govc:len w 1..21
//govc:len neg 0..1
//govc:bounded numbers of up to 21 digits
//govc:gen Years
func Contract_DurationYears(w []byte, neg int) {
	spec.Requires(len(w) >= 1 && len(w) <= 21 && (neg == 0 || neg == 1))
	v := zz(0)
	for i := 0; i < len(w); i++ {
		spec.Requires(w[i] >= '0' && w[i] <= '9')
		v = v.Mul(zz(10)).Add(zz(int64(w[i] - '0')))
	}
	v = v.Mul(zz(365 * 24 * 3600 * 1000000))
	t := string(w) + "y"
	if neg == 1 {
		t, v = "-"+t, v.Neg()
	}
	d, err := ParseDuration(t)
	spec.EnsuresN("refused exactly if it does not fit", (err == nil) == v.IsI64())
	if err == nil {
		spec.EnsuresN("value", zz(int64(d)).Eq(v))
	} else {
		spec.EnsuresN("no value", d == 0)
	}
}

//govc:prop C25
//govc:func Duration.String
//govc:func ParseDuration
//govc:digits
//govc:gen One
func Contract_DurationExtremes(x int64) {
	spec.Requires(x == 0 || x == math.MinInt64 || x == math.MaxInt64 || x == math.MinInt64+1)
	d, err := ParseDuration(Duration(x).String())
	spec.EnsuresN("read back", err == nil && int64(d) == x)
}
