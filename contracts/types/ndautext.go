package types

import (
	"math/rand"

	"verif.local/spec"
)

// An amount that is not negative is read back from its text, the text of a
// negative amount is that of its opposite after a minus sign.
//
//govc:prop C23
//govc:func Ndau.String
//govc:func ParseNdau
//govc:digits
//govc:gen One
func Contract_NdauText(a int64) {
	spec.Requires(a >= 0)
	x, err := ParseNdau(Ndau(a).String())
	spec.EnsuresN("read back", err == nil && int64(x) == a)
}

//govc:prop C23
//govc:func Ndau.String
//govc:digits
//govc:gen One
func Contract_NdauNegativeText(a int64) {
	spec.Requires(a > 0)
	spec.EnsuresN("minus sign and size", Ndau(-a).String() == "-"+Ndau(a).String())
}

func Gen_NdauDigits(r *rand.Rand) ([]byte, []byte) {
	w, f := make([]byte, r.Intn(22)), make([]byte, r.Intn(9))
	for i := range w {
		w[i] = byte('0' + r.Intn(10))
	}
	for i := range f {
		f[i] = byte('0' + r.Intn(10))
	}
	return w, f
}

// Every decimal number is read as what it says, or refused if it does not fit.
//
//govc:prop C23
//govc:func ParseNdau
//govc:len w 0..21
//govc:len f 0..8
//govc:bounded whole parts of up to 21 digits (all that fit, and two more)
//govc:noprune
//govc:gen NdauDigits
func Contract_NdauNumbers(w, f []byte) {
	spec.Requires(len(w) <= 21 && len(f) <= 8)
	s := string(w)
	v := zz(0)
	for i := 0; i < len(w); i++ {
		spec.Requires(w[i] >= '0' && w[i] <= '9')
		v = v.Mul(zz(10)).Add(zz(int64(w[i] - '0')))
	}
	if len(f) > 0 {
		s += "." + string(f)
	}
	for i := 0; i < 8; i++ {
		d := zz(0)
		if i < len(f) {
			spec.Requires(f[i] >= '0' && f[i] <= '9')
			d = zz(int64(f[i] - '0'))
		}
		v = v.Mul(zz(10)).Add(d)
	}
	x, err := ParseNdau(s)
	spec.EnsuresN("refused exactly if it does not fit", (err == nil) == v.IsI64())
	if err == nil {
		spec.EnsuresN("value", zz(int64(x)).Eq(v))
	} else {
		spec.EnsuresN("no value", x == 0)
	}
}

func Gen_Text(r *rand.Rand) string {
	b := make([]byte, r.Intn(9))
	for i := range b {
		b[i] = "0123456789. -+ydhmsutp"[r.Intn(22)]
	}
	return string(b)
}

// A text that is accepted consists of digits with at most one point, with
// spaces only around them.
//
//govc:prop C23
//govc:func ParseNdau
//govc:len s 0..3
//govc:bounded texts of up to 3 bytes
//govc:noprune
//govc:gen Text
func Contract_NdauSyntax(s string) {
	spec.Requires(len(s) <= 3)
	x, err := ParseNdau(s)
	i, j := 0, len(s)
	for i < j && isSpace(s[i]) {
		i++
	}
	for i < j && isSpace(s[j-1]) {
		j--
	}
	ok := true
	points, frac := 0, 0
	for k := i; k < j; k++ {
		if s[k] == '.' {
			points++
		} else if s[k] < '0' || s[k] > '9' {
			ok = false
		} else if points > 0 {
			frac++
		}
	}
	ok = ok && (points == 0 || points == 1 && frac > 0)
	spec.EnsuresN("accepted exactly if it is a number", (err == nil) == ok)
	if err != nil {
		spec.EnsuresN("no value", x == 0)
	}
}

//govc:helper
func isSpace(b byte) bool { return b == ' ' || b == '\t' || b == '\n' || b == '\f' || b == '\r' }
