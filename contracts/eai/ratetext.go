package eai

import (
	"math/rand"

	"github.com/ndau/ndaumath/pkg/types"
	"verif.local/spec"
)

func Gen_RateText(r *rand.Rand) (w, f []byte) {
	w, f = make([]byte, 1+r.Intn(9)), make([]byte, r.Intn(11))
	for i := range w {
		w[i] = byte('0' + r.Intn(10))
	}
	for i := range f {
		f[i] = byte('0' + r.Intn(10))
	}
	if len(w) > 1 && w[0] == '0' {
		w[0] = '9'
	}
	if n := len(f); n > 0 && f[n-1] == '0' {
		f[n-1] = '1'
	}
	return
}

// The text of a rate that is not negative is its decimal number of percent with
// no superfluous zeros, which is read back as the same rate.
//
//govc:prop C34
//govc:func Rate.String
//govc:func ParseRate
//govc:digits
//govc:noprune
//govc:len w 1..9
//govc:len f 0..10
//govc:bounded rates of less than 900000000 percent
//govc:gen RateText
func Contract_RateText(w, f []byte) {
	spec.Requires(len(w) >= 1 && len(w) <= 9 && len(f) <= 10)
	s := string(w)
	v := int64(0)
	for i := 0; i < len(w); i++ {
		spec.Requires(w[i] >= '0' && w[i] <= '9')
		if i == 0 && len(w) > 1 {
			spec.Requires(w[i] >= '1')
		}
		if i == 0 && len(w) == 9 {
			spec.Requires(w[i] <= '8')
		}
		v = v*10 + int64(w[i]-'0')
	}
	if len(f) > 0 {
		s += "." + string(f)
	}
	for i := 0; i < 10; i++ {
		v *= 10
		if i < len(f) {
			spec.Requires(f[i] >= '0' && f[i] <= '9')
			if i+1 == len(f) {
				spec.Requires(f[i] >= '1')
			}
			v += int64(f[i] - '0')
		}
	}
	t := Rate(v).String()
	spec.EnsuresN("number of percent", t == s+"%")
	x, err := ParseRate(t)
	spec.EnsuresN("read back", err == nil && int64(x) == v)
}

func Gen_RateDigits(r *rand.Rand) ([]byte, []byte) {
	w, f := make([]byte, 1+r.Intn(9)), make([]byte, r.Intn(11))
	for i := range w {
		w[i] = byte('0' + r.Intn(10))
	}
	for i := range f {
		f[i] = byte('0' + r.Intn(10))
	}
	return w, f
}

// Every number of percent with up to ten digits after the point is read as what
// it says, or refused if it does not fit.
//
//govc:prop C34
//govc:func ParseRate
//govc:len w 1..9
//govc:len f 0..10
//govc:bounded whole parts of up to 9 digits (all that fit)
//govc:noprune
//govc:gen RateDigits
func Contract_RateNumbers(w, f []byte) {
	spec.Requires(len(w) >= 1 && len(w) <= 9 && len(f) <= 10)
	s := string(w)
	v := zz(0)
	for i := 0; i < len(w); i++ {
		spec.Requires(w[i] >= '0' && w[i] <= '9')
		v = v.Mul(zz(10)).Add(zz(int64(w[i] - '0')))
	}
	if len(f) > 0 {
		s += "." + string(f)
	}
	for i := 0; i < 10; i++ {
		d := zz(0)
		if i < len(f) {
			spec.Requires(f[i] >= '0' && f[i] <= '9')
			d = zz(int64(f[i] - '0'))
		}
		v = v.Mul(zz(10)).Add(d)
	}
	// the last percent before the limit is left out of it
	fits := v.Lt(zz(922337203).Mul(zz(10000000000)))
	x, err := ParseRate(s + "%")
	spec.EnsuresN("refused if it does not fit", spec.Implies(!v.IsI64(), err != nil))
	spec.EnsuresN("accepted if it fits", spec.Implies(fits, err == nil))
	if err == nil {
		spec.EnsuresN("value", zz(int64(x)).Eq(v))
	} else {
		spec.EnsuresN("no value", x == 0)
	}
}

func Gen_RText(r *rand.Rand) string {
	b := make([]byte, r.Intn(7))
	for i := range b {
		b[i] = "0123456789. -+%%%%"[r.Intn(18)]
	}
	return string(b)
}

// A text that is accepted is a number before a percent sign, with spaces only
// around them.
//
//govc:prop C34
//govc:func ParseRate
//govc:len s 0..3
//govc:bounded texts of up to 3 bytes
//govc:noprune
//govc:gen RText
func Contract_RateSyntax(s string) {
	spec.Requires(len(s) <= 3)
	x, err := ParseRate(s)
	i, j := 0, len(s)
	for i < j && isSpace(s[i]) {
		i++
	}
	for i < j && isSpace(s[j-1]) {
		j--
	}
	ok := j-i >= 2 && s[j-1] == '%'
	points, whole, frac := 0, 0, 0
	for k := i; k < j-1; k++ {
		if s[k] == '.' {
			points++
		} else if s[k] < '0' || s[k] > '9' {
			ok = false
		} else if points > 0 {
			frac++
		} else {
			whole++
		}
	}
	ok = ok && whole > 0 && (points == 0 || points == 1 && frac > 0)
	spec.EnsuresN("accepted exactly if it is a percentage", (err == nil) == ok)
	if err != nil {
		spec.EnsuresN("no value", x == 0)
	}
}

//govc:helper
func isSpace(b byte) bool { return b == ' ' || b == '\t' || b == '\n' || b == '\f' || b == '\r' }

func Gen_One(r *rand.Rand) int64 { return zzRand(r) }

//govc:prop C34
//govc:func Rate.MarshalMsg
//govc:func (*Rate).UnmarshalMsg
//govc:func Rate.Msgsize
//govc:bv
//govc:nomerge
//govc:gen One
func Contract_RateMsg(a int64) {
	o, err := Rate(a).MarshalMsg(nil)
	spec.EnsuresN("written", err == nil && len(o) > 0)
	spec.EnsuresN("no longer than estimated", len(o) <= Rate(a).Msgsize())
	x := Rate(17)
	rest, err := x.UnmarshalMsg(o)
	spec.EnsuresN("read", err == nil && int64(x) == a && len(rest) == 0)
}

func Gen_Pair(r *rand.Rand) (int64, int64) { return zzRand(r), zzRand(r) }

//govc:prop C34
//govc:func (*RTRow).MarshalMsg
//govc:func (*RTRow).UnmarshalMsg
//govc:func (*RTRow).Msgsize
//govc:bv
//govc:nomerge
//govc:gen Pair
func Contract_RowMsg(a, b int64) {
	row := RTRow{From: types.Duration(a), Rate: Rate(b)}
	o, err := row.MarshalMsg(nil)
	spec.EnsuresN("written", err == nil && len(o) > 0)
	spec.EnsuresN("no longer than estimated", len(o) <= row.Msgsize())
	x := RTRow{From: 3, Rate: 4}
	rest, err := x.UnmarshalMsg(o)
	spec.EnsuresN("read", err == nil && x == row && len(rest) == 0)
}

func Gen_Rows(r *rand.Rand) []int64 {
	rows := make([]int64, 2*r.Intn(4))
	for i := range rows {
		rows[i] = zzRand(r)
	}
	return rows
}

//govc:prop C34
//govc:func RateTable.MarshalMsg
//govc:func (*RateTable).UnmarshalMsg
//govc:func RateTable.Msgsize
//govc:bv
//govc:nomerge
//govc:unroll 200
//govc:len rows 0,2
//govc:bounded tables of up to 1 row
//govc:gen Rows
func Contract_TableMsg(rows []int64) {
	spec.Requires(len(rows) <= 2 && len(rows)%2 == 0)
	zzTableMsg(rows)
}

//govc:prop C34
//govc:func RateTable.MarshalMsg
//govc:func (*RateTable).UnmarshalMsg
//govc:func RateTable.Msgsize
//govc:bv
//govc:nomerge
//govc:len rows 4,6,8
//govc:bounded tables of up to 4 rows of numbers of 2^32 or more
//govc:gen Rows
func Contract_TableMsgRows(rows []int64) {
	spec.Requires(len(rows) <= 8 && len(rows)%2 == 0)
	for i := 0; i < len(rows); i++ {
		spec.Requires(rows[i] >= 1<<32)
	}
	zzTableMsg(rows)
}

//govc:helper
func zzTableMsg(rows []int64) {
	t := RateTable{}
	for i := 0; i+1 < len(rows); i += 2 {
		t = append(t, RTRow{From: types.Duration(rows[i]), Rate: Rate(rows[i+1])})
	}
	o, err := t.MarshalMsg(nil)
	spec.EnsuresN("written", err == nil && len(o) > 0)
	spec.EnsuresN("no longer than estimated", len(o) <= t.Msgsize())
	x := RateTable{RTRow{From: 3, Rate: 4}}
	rest, err := x.UnmarshalMsg(o)
	spec.EnsuresN("read", err == nil && len(x) == len(t) && len(rest) == 0)
	for i := 0; i < len(t); i++ {
		spec.EnsuresN("row", x[i] == t[i])
	}
}
