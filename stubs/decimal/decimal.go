// Package decimal stands in for github.com/ericlagergren/decimal v3, which is
// not available offline.  It states, as executable code over math/big, the
// contract this verification assumes of that library for the operations
// ndaumath uses: integer-valued decimals of at most 34 significant digits
// (Context128, round half even).  govc executes these bodies symbolically.
package decimal

import "math/big"

// Context is an arithmetic context.
type Context struct{ Precision int }

// Context128 is the IEEE 754 decimal128 context.
var Context128 = Context{Precision: 34}

// Big is an integer-valued decimal number or NaN.
type Big struct {
	v   *big.Int
	nan bool
}

// WithContext returns a zero.
func WithContext(c Context) *Big { return &Big{v: new(big.Int)} }

// New returns value * 10^-scale; only scale 0 is supported.
func New(value int64, scale int) *Big {
	return &Big{v: big.NewInt(value)}
}

// SetMantScale sets z to value (scale 0).
func (z *Big) SetMantScale(value int64, scale int) *Big {
	z.v, z.nan = big.NewInt(value), false
	return z
}

// SetUint64 sets z to value.
func (z *Big) SetUint64(value uint64) *Big {
	z.v, z.nan = new(big.Int).SetUint64(value), false
	return z
}

// Add sets z to the rounded sum.
func (z *Big) Add(x, y *Big) *Big {
	z.v, z.nan = Round34(new(big.Int).Add(x.v, y.v)), x.nan || y.nan
	return z
}

// Sub sets z to the rounded difference.
func (z *Big) Sub(x, y *Big) *Big {
	z.v, z.nan = Round34(new(big.Int).Sub(x.v, y.v)), x.nan || y.nan
	return z
}

// Mul sets z to the rounded product.
func (z *Big) Mul(x, y *Big) *Big {
	z.v, z.nan = Round34(new(big.Int).Mul(x.v, y.v)), x.nan || y.nan
	return z
}

// QuoInt sets z to the quotient truncated towards zero; it is NaN for a zero
// divisor or a quotient that needs more than 34 digits.
func (z *Big) QuoInt(x, y *Big) *Big {
	if y.v.Sign() == 0 || x.nan || y.nan {
		z.v, z.nan = new(big.Int), true
		return z
	}
	q := new(big.Int).Quo(x.v, y.v)
	z.v, z.nan = q, !fits34(q)
	return z
}

// Rem sets z to the remainder of the truncated quotient.
func (z *Big) Rem(x, y *Big) *Big {
	if y.v.Sign() == 0 || x.nan || y.nan {
		z.v, z.nan = new(big.Int), true
		return z
	}
	q := new(big.Int).Quo(x.v, y.v)
	r := new(big.Int).Rem(x.v, y.v)
	z.v, z.nan = r, !fits34(q)
	return z
}

// QuoRem sets z to the truncated quotient and r to the remainder.
func (z *Big) QuoRem(x, y, r *Big) (*Big, *Big) {
	if y.v.Sign() == 0 || x.nan || y.nan {
		z.v, z.nan = new(big.Int), true
		r.v, r.nan = new(big.Int), true
		return z, r
	}
	a, b := x.v, y.v
	q := new(big.Int).Quo(a, b)
	z.v, z.nan = q, !fits34(q)
	r.v, r.nan = new(big.Int).Rem(a, b), !fits34(q)
	return z, r
}

// Cmp compares.
func (z *Big) Cmp(y *Big) int { return z.v.Cmp(y.v) }

// Sign is the sign.
func (z *Big) Sign() int { return z.v.Sign() }

// IsNaN reports whether z is not a number.
func (z *Big) IsNaN(quiet int) bool { return z.nan }

// Int64 returns z when it is representable.
func (z *Big) Int64() (int64, bool) {
	if z.nan || !z.v.IsInt64() {
		return 0, false
	}
	return z.v.Int64(), true
}

// Uint64 returns z when it is representable.
func (z *Big) Uint64() (uint64, bool) {
	if z.nan || !z.v.IsUint64() {
		return 0, false
	}
	return z.v.Uint64(), true
}

func fits34(v *big.Int) bool {
	return v.Cmp(limit34) < 0 && v.Cmp(neglimit34) > 0
}

var limit34, _ = new(big.Int).SetString("10000000000000000000000000000000000", 10)
var neglimit34, _ = new(big.Int).SetString("-10000000000000000000000000000000000", 10)

// Round34 rounds to 34 significant digits, half to even.
func Round34(v *big.Int) *big.Int {
	if fits34(v) {
		return v
	}
	n := len(new(big.Int).Abs(v).String()) - 34
	p := new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(n)), nil)
	q, r := new(big.Int).QuoRem(v, p, new(big.Int))
	twice := new(big.Int).Lsh(new(big.Int).Abs(r), 1)
	c := twice.Cmp(p)
	if c > 0 || (c == 0 && q.Bit(0) == 1) {
		if v.Sign() < 0 {
			q.Sub(q, big.NewInt(1))
		} else {
			q.Add(q, big.NewInt(1))
		}
	}
	return q.Mul(q, p)
}
