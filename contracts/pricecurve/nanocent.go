package pricecurve

import (
	"math/rand"

	"verif.local/spec"
)

//govc:helper
func zz(x int64) spec.Z { return spec.I(x) }

func Gen_Dollars(r *rand.Rand) (neg, sign int, w, f []byte) {
	w, f = make([]byte, 1+r.Intn(10)), make([]byte, r.Intn(12))
	if len(f) == 1 {
		f = nil
	}
	for i := range w {
		w[i] = byte('0' + r.Intn(10))
	}
	for i := range f {
		f[i] = byte('0' + r.Intn(10))
	}
	return r.Intn(2), r.Intn(2), w, f
}

// Every amount of dollars, with 2 to 11 digits after the point, if any, is read
// as what it says, or refused if it does not fit.
//
//govc:prop C33
//govc:func ParseDollars
//govc:len neg 0..1
//govc:len sign 0..1
//govc:len w 1..10
//govc:len f 0,2..11
//govc:bounded whole parts of up to 10 digits (all that fit, and two more)
//govc:noprune
//govc:gen Dollars
func Contract_DollarNumbers(neg, sign int, w, f []byte) {
	spec.Requires((neg == 0 || neg == 1) && (sign == 0 || sign == 1))
	spec.Requires(len(w) >= 1 && len(w) <= 10 && len(f) != 1 && len(f) <= 11)
	s := ""
	if neg == 1 {
		s = "-"
	}
	if sign == 1 {
		s += "$"
	}
	s += string(w)
	v := zz(0)
	for i := 0; i < len(w); i++ {
		spec.Requires(w[i] >= '0' && w[i] <= '9')
		v = v.Mul(zz(10)).Add(zz(int64(w[i] - '0')))
	}
	if len(f) > 0 {
		s += "." + string(f)
	}
	for i := 0; i < 11; i++ {
		d := zz(0)
		if i < len(f) {
			spec.Requires(f[i] >= '0' && f[i] <= '9')
			d = zz(int64(f[i] - '0'))
		}
		v = v.Mul(zz(10)).Add(d)
	}
	// the last dollar before the limit is left out of it
	fits := v.Lt(zz(92233720).Mul(zz(Dollar)))
	if neg == 1 {
		v = v.Neg()
	}
	x, err := ParseDollars(s)
	spec.EnsuresN("refused if it does not fit", spec.Implies(!v.IsI64(), err != nil))
	spec.EnsuresN("accepted if it fits", spec.Implies(fits, err == nil))
	if err == nil {
		spec.EnsuresN("value", zz(int64(x)).Eq(v))
	} else {
		spec.EnsuresN("no value", x == 0)
	}
}

func Gen_Separated(r *rand.Rand) (at, sep int, w []byte) {
	w = make([]byte, 4+r.Intn(3))
	for i := range w {
		w[i] = byte('0' + r.Intn(10))
	}
	return 1 + r.Intn(3), r.Intn(2), w
}

// Commas and underscores between the digits do not matter.
//
//govc:prop C33
//govc:func ParseDollars
//govc:len at 1..3
//govc:len sep 0..1
//govc:len w 4..6
//govc:bounded one separator in whole numbers of 4 to 6 digits
//govc:noprune
//govc:gen Separated
func Contract_DollarSeparators(at, sep int, w []byte) {
	spec.Requires(at >= 1 && at <= 3 && (sep == 0 || sep == 1) && len(w) >= 4 && len(w) <= 6)
	for i := 0; i < len(w); i++ {
		spec.Requires(w[i] >= '0' && w[i] <= '9')
	}
	x, err := ParseDollars(string(w))
	y, err2 := ParseDollars(string(w[:at]) + ",_"[sep:sep+1] + string(w[at:]))
	spec.EnsuresN("the same amount", err == nil && err2 == nil && x == y)
}

func Gen_Text(r *rand.Rand) string {
	b := make([]byte, r.Intn(9))
	for i := range b {
		b[i] = "0123456789. -+$,_e"[r.Intn(18)]
	}
	return string(b)
}

// A text that is accepted has digits, with at most a minus and a dollar sign
// before them, and a point and at least two digits after them.
//
//govc:prop C33
//govc:func ParseDollars
//govc:len s 0..3
//govc:bounded texts of up to 3 bytes without spaces and separators
//govc:noprune
//govc:gen Text
func Contract_DollarSyntax(s string) {
	spec.Requires(len(s) <= 3)
	for i := 0; i < len(s); i++ {
		spec.Requires(s[i] > ' ' && s[i] < 127 && s[i] != ',' && s[i] != '_')
	}
	x, err := ParseDollars(s)
	i := 0
	if i < len(s) && s[i] == '-' {
		i++
	}
	if i < len(s) && s[i] == '$' {
		i++
	}
	ok := i < len(s)
	points, whole, frac := 0, 0, 0
	for k := i; k < len(s); k++ {
		if s[k] == '.' {
			points++
		} else if s[k] < '0' || s[k] > '9' {
			ok = false
		} else if points > 0 {
			frac++
		} else {
			whole++
		}
	}
	ok = ok && whole > 0 && (points == 0 || points == 1 && frac > 1)
	spec.EnsuresN("accepted exactly if it is an amount", (err == nil) == ok)
	if err != nil {
		spec.EnsuresN("no value", x == 0)
	}
}

func zzRand(r *rand.Rand) int64 {
	x := int64(r.Uint64()) >> uint(r.Intn(64))
	if r.Intn(4) == 0 {
		x = []int64{0, 1, 2, -1, -2, 1<<63 - 1, -1 << 63, -1<<63 + 1}[r.Intn(8)]
	}
	return x
}

func Gen_One(r *rand.Rand) int64 { return zzRand(r) }

//govc:prop C33
//govc:func Nanocent.MarshalMsg
//govc:func (*Nanocent).UnmarshalMsg
//govc:func Nanocent.Msgsize
//govc:bv
//govc:nomerge
//govc:gen One
func Contract_NanocentMsg(a int64) {
	o, err := Nanocent(a).MarshalMsg(nil)
	spec.EnsuresN("written", err == nil && len(o) > 0)
	spec.EnsuresN("no longer than estimated", len(o) <= Nanocent(a).Msgsize())
	x := Nanocent(17)
	rest, err := x.UnmarshalMsg(o)
	spec.EnsuresN("read", err == nil && int64(x) == a && len(rest) == 0)
}

func Gen_NanocentRest(r *rand.Rand) ([]byte, []byte) {
	m, _ := Nanocent(zzRand(r)).MarshalMsg(nil)
	after := make([]byte, r.Intn(5))
	r.Read(after)
	return m, after
}

// What follows a message is left, and does not matter.
//
//govc:prop C33
//govc:func (*Nanocent).UnmarshalMsg
//govc:gen NanocentRest
func Contract_NanocentMsgRest(m, after []byte) {
	var x, y Nanocent
	rest, err := x.UnmarshalMsg(m)
	spec.Requires(err == nil && len(rest) == 0)
	rest, err = y.UnmarshalMsg(append(spec.Copy(m), after...))
	spec.EnsuresN("read", err == nil && x == y)
	spec.EnsuresN("the rest is left", spec.BytesEq(rest, after))
}

func Gen_NanocentBytes(r *rand.Rand) (int64, []byte) {
	a := make([]byte, r.Intn(5))
	r.Read(a)
	return zzRand(r), a
}

// Written after what is already in the buffer.
//
//govc:prop C33
//govc:func Nanocent.MarshalMsg
//govc:gen NanocentBytes
func Contract_NanocentMsgAppend(a int64, before []byte) {
	o, err := Nanocent(a).MarshalMsg(before[:len(before):len(before)])
	o2, err2 := Nanocent(a).MarshalMsg(nil)
	spec.EnsuresN("no error", err == nil && err2 == nil)
	spec.EnsuresN("what was there is kept", spec.BytesEq(o, append(spec.Copy(before), o2...)))
}
