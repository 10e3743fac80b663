package bitset256

import (
	"math/rand"

	"verif.local/spec"
)

func Gen_Bytes32(r *rand.Rand) []byte {
	b := make([]byte, 32)
	r.Read(b)
	if r.Intn(4) == 0 {
		b = b[:r.Intn(33)]
	}
	return b
}

func Gen_BSet(r *rand.Rand) *Bitset256 { return Gen_B(r) }

//govc:prop C03
//govc:func (*Bitset256).AsBytes
//govc:bv
//govc:gen BSet
func Contract_BytesRoundTrip(b *Bitset256) {
	x := b.AsBytes()
	spec.EnsuresN("32 bytes", len(x) == 32)
	c, err := FromBytes(x)
	spec.EnsuresN("accepted", err == nil)
	spec.EnsuresN("same set", *c == *b)
}

//govc:prop C03 C15
//govc:func FromBytes
//govc:bv
//govc:len x 32
//govc:gen Bytes32
func Contract_FromBytes(x []byte) {
	spec.Requires(len(x) == 32)
	c, err := FromBytes(x)
	spec.EnsuresN("accepted", err == nil)
	spec.EnsuresN("the byte form of one set only", spec.BytesEq(c.AsBytes(), x))
}

//govc:prop C03 C15
//govc:func FromBytes
//govc:gen Bytes32
func Contract_FromBytesLength(x []byte) {
	spec.Requires(len(x) != 32)
	c, err := FromBytes(x)
	spec.EnsuresN("refused", err != nil && c == nil)
}

//govc:prop C03
//govc:func (*Bitset256).AsHex
//govc:bv
//govc:gen BSet
func Contract_HexRoundTrip(b *Bitset256) {
	s := b.AsHex()
	spec.EnsuresN("64 digits", len(s) == 64)
	c, err := FromHex(s)
	spec.EnsuresN("accepted", err == nil)
	spec.EnsuresN("same set", *c == *b)
	spec.EnsuresN("String is the hex form", b.String() == s)
}

func lowHex(c byte) byte {
	if c >= 'A' && c <= 'F' {
		return c + 32
	}
	return c
}

func isHex(c byte) bool {
	return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F')
}

// Any text of 64 characters: accepted exactly when every character is a
// hexadecimal digit, and then the set's hex form is the same text in lower case.
//
//govc:prop C03 C15
//govc:func FromHex
//govc:bv
//govc:len x 64
//govc:gen Hex
func Contract_FromHex(x []byte, k byte) {
	spec.Requires(len(x) == 64)
	all := true
	for _, c := range x {
		all = all && isHex(c)
	}
	c, err := FromHex(string(x))
	spec.EnsuresN("accepts exactly hexadecimal", (err == nil) == all)
	if err == nil {
		s := c.AsHex()
		spec.EnsuresN("same text", s[k&63] == lowHex(x[k&63]))
	}
}

// Texts of other lengths.
//
//govc:prop C03 C15
//govc:func FromHex
//govc:bv
//govc:len x 0..20,31,32,33,48,60..63,65..70,80,96,127,128,129
//govc:bounded texts of up to 20 and listed greater lengths up to 129
//govc:gen HexShort
func Contract_FromHexLength(x []byte) {
	spec.Requires(len(x) != 64)
	c, err := FromHex(string(x))
	spec.EnsuresN("refused", err != nil && c == nil)
}

func Gen_Hex(r *rand.Rand) ([]byte, byte) {
	x := make([]byte, 64)
	for i := range x {
		x[i] = "0123456789abcdefABCDEF"[r.Intn(22)]
	}
	if r.Intn(3) == 0 {
		x[r.Intn(64)] = byte(r.Intn(256))
	}
	return x, byte(r.Intn(256))
}

func Gen_HexShort(r *rand.Rand) []byte {
	x, _ := Gen_Hex(r)
	x = append(x, x...)
	return x[:r.Intn(128)]
}

//govc:prop C02
//govc:func (*Bitset256).Count
//govc:bv
//govc:gen BSet
func Contract_Count(b *Bitset256) {
	n := 0
	for w := 0; w < 4; w++ {
		for i := uint(0); i < 64; i++ {
			n += int(b[w] >> i & 1)
		}
	}
	spec.EnsuresN("number of members", b.Count() == n)
}

//govc:prop C02
//govc:func (*Bitset256).Less
//govc:bv
//govc:gen Pair
func Contract_Less(a, b *Bitset256, _ byte) {
	lt := a[3] < b[3] || (a[3] == b[3] && (a[2] < b[2] || (a[2] == b[2] && (a[1] < b[1] || (a[1] == b[1] && a[0] < b[0])))))
	spec.EnsuresN("compares as 256-bit numbers", a.Less(b) == lt)
}

//govc:prop C02
//govc:func (*Bitset256).Less
//govc:bv
//govc:gen Triple
func Contract_LessOrder(a, b, c *Bitset256) {
	ab, ba := a.Less(b), b.Less(a)
	spec.EnsuresN("asymmetric", !(ab && ba))
	spec.EnsuresN("total", ab || ba || a.Equals(b))
	spec.EnsuresN("equal sets are not less", spec.Implies(a.Equals(b), !ab))
	spec.EnsuresN("transitive", spec.Implies(ab && b.Less(c), a.Less(c)))
}

func Gen_Triple(r *rand.Rand) (a, b, c *Bitset256) {
	a, b, _ = Gen_Pair(r)
	c, _, _ = Gen_Pair(r)
	return
}

// Two members (equal or not) in the same or in two different 64-bit words;
// which words is given by the length of w.
//
//govc:prop C02
//govc:func (*Bitset256).Indices
//govc:bv
//govc:len w 0..9
//govc:make 2
//govc:bounded sets of one or two members
//govc:gen Pair1
func Contract_Indices2(w []byte, i, j byte) {
	spec.Requires(len(w) < 10)
	b := &Bitset256{}
	b["0123001012"[len(w)]-'0'] |= 1 << (i & 63)
	b["0123123233"[len(w)]-'0'] |= 1 << (j & 63)
	old := *b
	r := b.Indices()
	spec.EnsuresN("as many as the count", len(r) == b.Count())
	for p := range r {
		spec.EnsuresN("a member", specBit(&old, r[p]))
		if p > 0 {
			spec.EnsuresN("increasing", r[p-1] < r[p])
		}
	}
	spec.EnsuresN("unchanged", *b == old)
}

func Gen_Pair1(r *rand.Rand) (w []byte, i, j byte) {
	return make([]byte, r.Intn(10)), byte(r.Intn(256)), byte(r.Intn(256))
}

// Sets of many members: the first n multiples of a step, modulo 256.
//
//govc:prop C02
//govc:func (*Bitset256).Indices
//govc:unroll 300
//govc:make 256
//govc:len n 0..9,31,32,33,63..66,95,96,127..130,191..194,253..256
//govc:len step 1,3,77,255
//govc:bounded listed sets of up to 256 members
//govc:gen Many
func Contract_IndicesMany(n, step int) {
	spec.Requires(n >= 0 && n <= 256 && step >= 1 && step <= 255 && step%2 == 1)
	b := &Bitset256{}
	for i := 0; i < n; i++ {
		b.Set(byte(i * step))
	}
	r := b.Indices()
	spec.EnsuresN("as many as members", len(r) == n && b.Count() == n)
	k := 0
	for i := 0; i < 256; i++ {
		if specBit(b, byte(i)) {
			spec.EnsuresN("next member", k < len(r) && r[k] == byte(i))
			k++
		}
	}
	spec.EnsuresN("no more", k == n)
}

func Gen_Many(r *rand.Rand) (int, int) { return r.Intn(257), r.Intn(128)*2 + 1 }
