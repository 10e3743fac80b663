package bitset256

import (
	"math/rand"

	"verif.local/spec"
)

// Bit is the abstraction function: the k'th member of the set.
func specBit(b *Bitset256, k byte) bool {
	return (b[k>>6]>>(k&63))&1 == 1
}

func Gen_B(r *rand.Rand) *Bitset256 {
	b := &Bitset256{}
	switch r.Intn(3) {
	case 0:
		for i := 0; i < r.Intn(5); i++ {
			b[r.Intn(4)] |= 1 << uint(r.Intn(64))
		}
	case 1:
		for i := range b {
			b[i] = r.Uint64()
		}
	case 2:
		for i := range b {
			b[i] = ^uint64(0)
		}
		b[r.Intn(4)] &= ^(1 << uint(r.Intn(64)))
	}
	return b
}

func Gen_Set(r *rand.Rand) (*Bitset256, byte, byte) {
	ix := byte(r.Intn(256))
	k := ix
	if r.Intn(2) == 0 {
		k = byte(r.Intn(256))
	}
	return Gen_B(r), ix, k
}

func Gen_Pair(r *rand.Rand) (*Bitset256, *Bitset256, byte) {
	a := Gen_B(r)
	c := Gen_B(r)
	if r.Intn(3) == 0 {
		*c = *a
		if r.Intn(2) == 0 {
			c[r.Intn(4)] ^= 1 << uint(r.Intn(64))
		}
	}
	return a, c, byte(r.Intn(256))
}

//govc:prop C01
//govc:func (*Bitset256).Get
//govc:bv
//govc:gen Set
func Contract_Get(b *Bitset256, ix byte, _ byte) {
	spec.Ensures(b.Get(ix) == specBit(b, ix))
}

//govc:prop C01
//govc:func (*Bitset256).Set
//govc:bv
//govc:gen Set
func Contract_Set(b *Bitset256, ix byte, k byte) {
	spec.Modifies(b)
	old := *b
	r := b.Set(ix)
	spec.EnsuresN("returns the receiver", r == b)
	spec.EnsuresN("exactly the bit asked for is set", specBit(b, k) == (k == ix || specBit(&old, k)))
}

//govc:prop C01
//govc:func (*Bitset256).Clear
//govc:bv
//govc:gen Set
func Contract_Clear(b *Bitset256, ix byte, k byte) {
	spec.Modifies(b)
	old := *b
	r := b.Clear(ix)
	spec.EnsuresN("returns the receiver", r == b)
	spec.EnsuresN("exactly the bit asked for is cleared", specBit(b, k) == (k != ix && specBit(&old, k)))
}

//govc:prop C01
//govc:func (*Bitset256).Toggle
//govc:bv
//govc:gen Set
func Contract_Toggle(b *Bitset256, ix byte, k byte) {
	spec.Modifies(b)
	old := *b
	r := b.Toggle(ix)
	spec.EnsuresN("returns the receiver", r == b)
	spec.EnsuresN("exactly the bit asked for is flipped", specBit(b, k) == ((k == ix) != specBit(&old, k)))
}

//govc:prop C01
//govc:func (*Bitset256).Clone
//govc:bv
//govc:gen Set
func Contract_Clone(b *Bitset256, ix byte, k byte) {
	old := *b
	c := b.Clone()
	spec.EnsuresN("a new object", c != b)
	spec.EnsuresN("same members", *c == old)
	c.Toggle(ix)
	spec.EnsuresN("independent of the original", *b == old)
	_ = k
}

//govc:prop C01
//govc:func (*Bitset256).Intersect
//govc:bv
//govc:gen Pair
func Contract_Intersect(a, b *Bitset256, k byte) {
	r := a.Intersect(b)
	spec.EnsuresN("a new object", r != a && r != b)
	spec.EnsuresN("members of both", specBit(r, k) == (specBit(a, k) && specBit(b, k)))
}

//govc:prop C01
//govc:func (*Bitset256).Union
//govc:bv
//govc:gen Pair
func Contract_Union(a, b *Bitset256, k byte) {
	r := a.Union(b)
	spec.EnsuresN("a new object", r != a && r != b)
	spec.EnsuresN("members of either", specBit(r, k) == (specBit(a, k) || specBit(b, k)))
}

//govc:prop C01
//govc:func (*Bitset256).Equals
//govc:bv
//govc:gen Pair
func Contract_Equals(a, b *Bitset256, k byte) {
	e := a.Equals(b)
	spec.EnsuresN("equal sets have equal members", spec.Implies(e, specBit(a, k) == specBit(b, k)))
	spec.EnsuresN("equal iff same representation", e == (*a == *b))
	spec.EnsuresN("symmetric", e == b.Equals(a))
	spec.EnsuresN("reflexive", a.Equals(a))
}

//govc:prop C01
//govc:func (*Bitset256).IsSubsetOf
//govc:bv
//govc:gen Pair
func Contract_IsSubsetOf(a, b *Bitset256, k byte) {
	s := a.IsSubsetOf(b)
	spec.EnsuresN("members of a subset are members", spec.Implies(s && specBit(a, k), specBit(b, k)))
	spec.EnsuresN("subset iff nothing outside", s == (a[0]&^b[0]|a[1]&^b[1]|a[2]&^b[2]|a[3]&^b[3] == 0))
}

// Operands may be the same object.
//
//govc:prop C01
//govc:bv
//govc:gen Set
func Contract_Aliased(a *Bitset256, ix byte, k byte) {
	old := *a
	u := a.Union(a)
	n := a.Intersect(a)
	spec.EnsuresN("idempotent", *u == old && *n == old)
	spec.EnsuresN("subset of itself", a.IsSubsetOf(a) && a.Equals(a) && !a.Less(a))
	u.Toggle(ix)
	n.Toggle(ix)
	spec.EnsuresN("independent of the operand", *a == old && specBit(a, k) == specBit(&old, k))
}

//govc:prop C01
//govc:func New
//govc:bv
//govc:len ixs 0..4
func Contract_New(ixs []byte, k byte) {
	b := New(ixs...)
	in := false
	for _, x := range ixs {
		if x == k {
			in = true
		}
	}
	spec.EnsuresN("exactly the listed members", specBit(b, k) == in)
}

func Gen_New(r *rand.Rand) ([]byte, byte) {
	n := r.Intn(20)
	b := make([]byte, n)
	r.Read(b)
	k := byte(r.Intn(256))
	if n > 0 && r.Intn(2) == 0 {
		k = b[r.Intn(n)]
	}
	return b, k
}
