package unsigned

import (
	"math/rand"

	"github.com/ndau/ndaumath/pkg/ndauerr"
	"verif.local/spec"
)

//govc:helper
func zz(x uint64) spec.Z { return spec.U(x) }

func zzRand(r *rand.Rand) uint64 {
	x := uint64(r.Uint64()) >> uint(r.Intn(64))
	if r.Intn(4) == 0 {
		x = []uint64{0, 1, 2, 1<<64 - 1, 1<<64 - 2, 1 << 63, 1<<63 - 1, 1 << 32}[r.Intn(8)]
	}
	return x
}

func Gen_Two(r *rand.Rand) (uint64, uint64) { return zzRand(r), zzRand(r) }

func Gen_Three(r *rand.Rand) (uint64, uint64, uint64) { return zzRand(r), zzRand(r), zzRand(r) }

//govc:prop C22
//govc:func Add
//govc:gen Two
func Contract_Add(a, b uint64) {
	x, err := Add(a, b)
	w := zz(a).Add(zz(b))
	spec.EnsuresN("an error exactly on overflow", (err == nil) == w.IsU64())
	if err == nil {
		spec.EnsuresN("exact", zz(x).Eq(w))
	} else {
		spec.EnsuresN("overflow", err == ndauerr.ErrOverflow && x == 0)
	}
}

//govc:prop C22
//govc:func Sub
//govc:gen Two
func Contract_Sub(a, b uint64) {
	x, err := Sub(a, b)
	w := zz(a).Sub(zz(b))
	spec.EnsuresN("an error exactly on overflow", (err == nil) == w.IsU64())
	if err == nil {
		spec.EnsuresN("exact", zz(x).Eq(w))
	} else {
		spec.EnsuresN("overflow", err == ndauerr.ErrOverflow && x == 0)
	}
}

//govc:prop C22
//govc:func Mul
//govc:gen Two
func Contract_Mul(a, b uint64) {
	x, err := Mul(a, b)
	w := zz(a).Mul(zz(b))
	spec.EnsuresN("an error exactly on overflow", (err == nil) == w.IsU64())
	if err == nil {
		spec.EnsuresN("exact", zz(x).Eq(w))
	} else {
		spec.EnsuresN("overflow", err == ndauerr.ErrOverflow && x == 0)
	}
}

//govc:prop C22
//govc:func Div
//govc:gen Two
func Contract_Div(a, b uint64) {
	x, err := Div(a, b)
	if b == 0 {
		spec.EnsuresN("division by zero refused", err == ndauerr.ErrDivideByZero && x == 0)
		return
	}
	w := zz(a).Quo(zz(b))
	spec.EnsuresN("an error exactly on overflow", (err == nil) == w.IsU64())
	if err == nil {
		spec.EnsuresN("exact", zz(x).Eq(w))
	} else {
		spec.EnsuresN("no value", x == 0)
	}
}

//govc:prop C22
//govc:func Mod
//govc:gen Two
func Contract_Mod(a, b uint64) {
	x, err := Mod(a, b)
	if b == 0 {
		spec.EnsuresN("division by zero refused", err == ndauerr.ErrDivideByZero && x == 0)
		return
	}
	w := zz(a).Rem(zz(b))
	spec.EnsuresN("an error exactly on overflow", (err == nil) == w.IsU64())
	if err == nil {
		spec.EnsuresN("exact", zz(x).Eq(w))
	} else {
		spec.EnsuresN("no value", x == 0)
	}
}

//govc:prop C22
//govc:func DivMod
//govc:gen Two
func Contract_DivMod(a, b uint64) {
	x, y, err := DivMod(a, b)
	if b == 0 {
		spec.EnsuresN("division by zero refused", err == ndauerr.ErrDivideByZero && x == 0 && y == 0)
		return
	}
	w := zz(a).Quo(zz(b))
	spec.EnsuresN("an error exactly on overflow", (err == nil) == w.IsU64())
	if err == nil {
		spec.EnsuresN("quotient towards zero", zz(x).Eq(w))
		spec.EnsuresN("remainder", zz(y).Eq(zz(a).Rem(zz(b))))
		spec.EnsuresN("together", zz(a).Eq(zz(x).Mul(zz(b)).Add(zz(y))))
	}
}

// The product of value and numerator may be much larger than the result.
//
//govc:prop C22
//govc:func MulDiv
//govc:gen Three
func Contract_MulDiv(v, n, d uint64) {
	p := zz(v).Mul(zz(n))
	spec.Requires(p.Lt(spec.Pow10(34)) && p.Neg().Lt(spec.Pow10(34)))
	x, err := MulDiv(v, n, d)
	if d == 0 {
		spec.EnsuresN("division by zero refused", err == ndauerr.ErrDivideByZero && x == 0)
		return
	}
	w := p.Quo(zz(d))
	spec.EnsuresN("an error exactly on overflow", (err == nil) == w.IsU64())
	if err == nil {
		spec.EnsuresN("exact", zz(x).Eq(w))
	} else {
		spec.EnsuresN("overflow", err == ndauerr.ErrOverflow && x == 0)
	}
}
