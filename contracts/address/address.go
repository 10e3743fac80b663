package address

import (
	"crypto/sha256"
	"math/rand"
	"strings"

	"github.com/ndau/ndaumath/pkg/b32"

	"verif.local/spec"
)

func zzKind(k byte) bool {
	return k == 'a' || k == 'n' || k == 'e' || k == 'x' || k == 'b' || k == 'm'
}

var zzKinds = []byte{KindUser, KindNdau, KindEndowment, KindExchange, KindBPC, KindMarketMaker}

// The address of some data: nd, the kind, 26 bytes of the hash, a checksum.
//
//govc:prop C09
//govc:func Generate
//govc:gen Generate
func Contract_Generate(kind byte, data []byte) {
	a, err := Generate(kind, data)
	spec.EnsuresN("exactly the six kinds, and at least 12 bytes", (err == nil) == (zzKind(kind) && len(data) >= 12))
	if err != nil {
		spec.EnsuresN("no address with an error", a.String() == "")
		return
	}
	s := a.String()
	spec.EnsuresN("48 characters", len(s) == 48)
	spec.EnsuresN("begins with nd", s[0] == 'n' && s[1] == 'd')
	spec.EnsuresN("third character is the kind", s[2] == kind)
	spec.EnsuresN("Kind", a.Kind() == kind)
	v, err := Validate(s)
	spec.EnsuresN("valid", err == nil)
	spec.EnsuresN("same address", v.String() == s)
	spec.EnsuresN("still valid", a.Revalidate() == nil)
	d, err := b32.Decode(s)
	spec.EnsuresN("decodes", err == nil && len(d) == 30)
	h := sha256.Sum256(data)
	spec.EnsuresN("contains the last 26 bytes of the hash", spec.BytesEq(d[2:28], h[6:]))
	spec.EnsuresN("ends in the checksum", spec.BytesEq(d[28:], b32.Checksum16(d[:28])))
}

func Gen_Generate(r *rand.Rand) (byte, []byte) {
	d := make([]byte, r.Intn(40))
	if r.Intn(4) == 0 {
		d = make([]byte, r.Intn(1000))
	}
	r.Read(d)
	if r.Intn(8) == 0 {
		return byte(r.Intn(256)), d
	}
	return zzKinds[r.Intn(len(zzKinds))], d
}

// Different hashes give different addresses, and so do different kinds.
//
//govc:prop C09
//govc:func Generate
//govc:gen Two
func Contract_Distinct(k1, k2 byte, d1, d2 []byte) {
	a, err := Generate(k1, d1)
	spec.Requires(err == nil)
	b, err := Generate(k2, d2)
	spec.Requires(err == nil && a.String() == b.String())
	spec.EnsuresN("same kind", k1 == k2)
	h1, h2 := sha256.Sum256(d1), sha256.Sum256(d2)
	spec.EnsuresN("same last 26 bytes of the hash", spec.BytesEq(h1[6:], h2[6:]))
}

func Gen_Two(r *rand.Rand) (byte, byte, []byte, []byte) {
	d := make([]byte, 12+r.Intn(20))
	r.Read(d)
	k := zzKinds[r.Intn(len(zzKinds))]
	d2 := append([]byte{}, d...)
	if r.Intn(2) == 0 { // not the same data, but similar
		d = make([]byte, 12+r.Intn(1000))
		r.Read(d)
		d2 = append([]byte{}, d...)
		switch r.Intn(3) {
		case 0:
			d2[r.Intn(len(d2))] ^= byte(1 << uint(r.Intn(8)))
		case 1:
			d2 = append(d2, make([]byte, 1+r.Intn(10))...)
		case 2:
			d2 = d2[:len(d2)-r.Intn(2)]
		}
		return k, k, d, d2
	}
	return k, zzKinds[r.Intn(len(zzKinds))], d, d2
}

// Kinds from their names.
//
//govc:prop C09
//govc:func IsValidKind
func Contract_Kinds(k byte) {
	spec.EnsuresN("the six kinds", IsValidKind(k) == zzKind(k))
	b, err := ParseKind(k)
	spec.EnsuresN("a kind byte is itself", (err == nil) == zzKind(k) && b == k)
	for _, n := range []struct {
		s string
		k byte
	}{{"user", 'a'}, {"u", 'a'}, {"ndau", 'n'}, {"endowment", 'e'}, {"exchange", 'x'}, {"bpc", 'b'}, {"marketmaker", 'm'},
		{"a", 'a'}, {"n", 'n'}, {"e", 'e'}, {"x", 'x'}, {"b", 'b'}, {"m", 'm'}, {"M", 'm'}, {"Endowment", 'e'}, {"USER", 'a'}} {
		b, err := ParseKind(n.s)
		spec.EnsuresN("named kind", err == nil && b == n.k)
	}
	_, err = ParseKind("")
	spec.EnsuresN("no name", err != nil)
}

// What is accepted is canonical.
//
//govc:prop C11 C15
//govc:func Validate
//govc:gen Text
func Contract_Validate(s string) {
	a, err := Validate(s)
	if err != nil {
		spec.EnsuresN("no address with an error", a.String() == "")
		return
	}
	t := a.String()
	spec.EnsuresN("lower case of the text", t == strings.ToLower(s))
	spec.EnsuresN("48 characters", len(t) == 48)
	spec.EnsuresN("valid kind", zzKind(t[2]) && a.Kind() == t[2])
	d, err := b32.Decode(t)
	spec.EnsuresN("decodes to 30 bytes", err == nil && len(d) == 30)
	spec.EnsuresN("is the encoding of those bytes", b32.Encode(d) == t)
	spec.EnsuresN("checksum", spec.BytesEq(d[28:], b32.Checksum16(d[:28])))
	b, err := Validate(t)
	spec.EnsuresN("validating again changes nothing", err == nil && b.String() == t && a.Revalidate() == nil)
}

// Whatever has the form of an address, in either letter case, is accepted.
//
//govc:prop C11
//govc:func Validate
//govc:gen Form
func Contract_Complete(d []byte, s string) {
	spec.Requires(len(d) == 30)
	t := b32.Encode(d)
	spec.Requires(zzKind(t[2]) && spec.BytesEq(d[28:], b32.Checksum16(d[:28])))
	spec.Requires(strings.ToLower(s) == t)
	a, err := Validate(s)
	spec.EnsuresN("accepted", err == nil)
	spec.EnsuresN("canonical text", a.String() == t)
}

func Gen_Form(r *rand.Rand) ([]byte, string) {
	d := make([]byte, 20)
	r.Read(d)
	a, _ := Generate(zzKinds[r.Intn(len(zzKinds))], d)
	h, _ := b32.Decode(a.String())
	return h, zzCase(r, a.String())
}

func zzCase(r *rand.Rand, s string) string {
	b := []byte(s)
	if r.Intn(2) == 0 {
		for i := range b {
			if r.Intn(2) == 0 && b[i] >= 'a' {
				b[i] -= 32
			}
		}
	}
	return string(b)
}

func Gen_Text(r *rand.Rand) string {
	_, s := Gen_Form(r)
	b := []byte(s)
	switch r.Intn(8) {
	case 0:
		b[r.Intn(len(b))] = byte(r.Intn(256))
	case 1:
		b = b[:r.Intn(len(b))]
	case 2:
		b = append(b, "=\n\r a"[r.Intn(5)])
		if r.Intn(2) == 0 {
			b = append(b[len(b)-1:], b[:len(b)-1]...)
		}
	case 3: // 40 characters and 8 that do not count
		d := make([]byte, 25)
		for {
			r.Read(d)
			x := b32.Encode(d[:23])
			if IsValidKind(x[2]) {
				copy(d[23:], b32.Checksum16(d[:23]))
				break
			}
		}
		return b32.Encode(d) + "\n\n\r\n\n\n\r\n"
	case 4:
		d := make([]byte, 29)
		for {
			r.Read(d)
			x := b32.Encode(d[:27])
			if IsValidKind(x[2]) {
				copy(d[27:], b32.Checksum16(d[:27]))
				break
			}
		}
		return b32.Encode(d)
	}
	return string(b)
}

// Text marshalling.
//
//govc:prop C11 C15
//govc:func (*Address).UnmarshalText
//govc:gen Unmarshal
func Contract_UnmarshalText(old Address, text []byte) {
	z := old
	err := z.UnmarshalText(text)
	v, err2 := Validate(string(text))
	spec.EnsuresN("accepts what Validate accepts", (err == nil) == (err2 == nil))
	if err != nil {
		spec.EnsuresN("unchanged on error", z == old)
		return
	}
	spec.EnsuresN("the validated address", z == v)
	m, err := z.MarshalText()
	spec.EnsuresN("marshals to its text", err == nil && string(m) == v.String())
	var y Address
	err = y.UnmarshalText(m)
	spec.EnsuresN("round trip", err == nil && y == z)
}

func Gen_Unmarshal(r *rand.Rand) (Address, []byte) {
	return Address{"x"}, []byte(Gen_Text(r))
}

// Binary (MessagePack) form.
//
//govc:prop C11
//govc:func Address.MarshalMsg
//govc:gen Msg
func Contract_Msg(s string, pre, tail []byte) {
	a, err := Validate(s)
	spec.Requires(err == nil)
	spec.Requires(len(pre) < 1000 && len(tail) < 1000)
	o, err := a.MarshalMsg(pre[:len(pre):len(pre)])
	spec.EnsuresN("appended", err == nil && len(o) > len(pre) && spec.BytesEq(o[:len(pre)], pre))
	spec.EnsuresN("size bound", len(o)-len(pre) <= a.Msgsize())
	m := append(append([]byte{}, o[len(pre):]...), tail...)
	var z Address
	rest, err := z.UnmarshalMsg(m)
	spec.EnsuresN("same address", err == nil && z == a)
	spec.EnsuresN("nothing else consumed", spec.BytesEq(rest, tail))
}

func Gen_Msg(r *rand.Rand) (string, []byte, []byte) {
	_, s := Gen_Form(r)
	if r.Intn(2) == 0 {
		s = Gen_Text(r)
	}
	p, t := make([]byte, r.Intn(4)), make([]byte, r.Intn(4))
	r.Read(p)
	r.Read(t)
	return s, p, t
}

// Arbitrary bytes as a MessagePack message.
//
//govc:prop C15 C11
//govc:func (*Address).UnmarshalMsg
//govc:gen HostileMsg
//govc:noprune
func Contract_HostileMsg(b []byte) {
	var z Address
	rest, err := z.UnmarshalMsg(b)
	if err == nil {
		spec.EnsuresN("rest is the end", len(rest) < len(b) && spec.BytesEq(rest, b[len(b)-len(rest):]))
	}
}

func Gen_HostileMsg(r *rand.Rand) []byte {
	s, p, t := Gen_Msg(r)
	a, _ := Validate(s)
	m, _ := a.MarshalMsg(nil)
	m = append(append(p[:0:0], m...), t...)
	for k := r.Intn(4); k > 0; k-- {
		m[r.Intn(min(len(m), 5))] = byte(r.Intn(256))
	}
	return m[:r.Intn(len(m)+1)]
}
