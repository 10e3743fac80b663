package address

import (
	"math/rand"

	"github.com/ndau/ndaumath/pkg/b32"

	"verif.local/spec"
)

// text is the 48 characters with the given values.
func zzText(v []byte) string {
	b := make([]byte, len(v))
	for i := range v {
		b[i] = b32.NdauAlphabet[v[i]&31]
	}
	return string(b)
}

// Any change confined to three neighbouring characters: one mistyped
// character, two neighbours swapped, or two characters around a third swapped.
//
//govc:prop C10
//govc:func Validate
//govc:canon
//govc:len v 48
//govc:len w 3
//govc:len pos 0..45
//govc:gen Typo
func Contract_Typo(v []byte, pos int, w []byte) {
	spec.Requires(len(v) == 48 && len(w) == 3 && pos >= 0 && pos < 46)
	spec.Requires(w[0]&31 != v[pos]&31 || w[1]&31 != v[pos+1]&31 || w[2]&31 != v[pos+2]&31)
	_, err := Validate(zzText(v))
	spec.Requires(err == nil)
	u := append([]byte{}, v...)
	u[pos], u[pos+1], u[pos+2] = w[0], w[1], w[2]
	_, err = Validate(zzText(u))
	spec.EnsuresN("rejected", err != nil)
}

func Gen_Typo(r *rand.Rand) ([]byte, int, []byte) {
	d := make([]byte, 20)
	r.Read(d)
	kinds := []byte{KindUser, KindNdau, KindEndowment, KindExchange, KindBPC, KindMarketMaker}
	a, _ := Generate(kinds[r.Intn(len(kinds))], d)
	var v []byte
	for _, c := range []byte(a.String()) {
		v = append(v, byte(b32.Index(string([]byte{c}))))
	}
	pos := r.Intn(46)
	switch r.Intn(4) {
	case 0:
		pos = 45
	case 1:
		pos = 0
	}
	w := append([]byte{}, v[pos:pos+3]...)
	switch r.Intn(4) {
	case 0:
		w[0], w[1] = w[1], w[0]
	case 1:
		w[1], w[2] = w[2], w[1]
	default:
		w[r.Intn(3)] = byte(r.Intn(32))
	}
	return v, pos, w
}
