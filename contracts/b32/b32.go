package b32

import (
	"crypto/sha256"
	"math/rand"
	"strings"

	"verif.local/spec"
)

func Gen_Bytes(r *rand.Rand) []byte {
	b := make([]byte, r.Intn(70))
	r.Read(b)
	return b
}

//govc:prop C08
//govc:func Decode
//govc:gen Bytes
func Contract_RoundTrip(b []byte) {
	s := Encode(b)
	spec.EnsuresN("8 characters for every 5 bytes begun", len(s) == (len(b)+4)/5*8)
	d, err := Decode(s)
	spec.EnsuresN("accepted", err == nil)
	spec.EnsuresN("same bytes", spec.BytesEq(d, b))
}

// Letter case does not matter.
//
//govc:prop C08
//govc:func Decode
//govc:gen Folded
func Contract_CaseInsensitive(b []byte, s string) {
	spec.Requires(strings.ToLower(s) == Encode(b))
	d, err := Decode(s)
	spec.EnsuresN("accepted", err == nil)
	spec.EnsuresN("same bytes", spec.BytesEq(d, b))
}

func Gen_Folded(r *rand.Rand) ([]byte, string) {
	b := Gen_Bytes(r)
	s := []byte(Encode(b))
	for i := range s {
		if r.Intn(2) == 0 && s[i] >= 'a' && s[i] <= 'z' {
			s[i] -= 32
		}
	}
	return b, string(s)
}

// Text that decodes without skipped characters or padding is the encoding of
// what it decodes to.
//
//govc:prop C08 C15
//govc:func Decode
//govc:gen Text
func Contract_DecodeEncode(s string) {
	d, err := Decode(s)
	spec.EnsuresN("no more than 5 bytes for 8 characters", spec.Implies(err == nil, 8*len(d) <= 5*len(strings.ToLower(s))))
	if err == nil && 8*len(d) == 5*len(strings.ToLower(s)) {
		spec.EnsuresN("same text up to case", Encode(d) == strings.ToLower(s))
	}
}

func Gen_Text(r *rand.Rand) string {
	_, s := Gen_Folded(r)
	if r.Intn(3) == 0 && len(s) > 0 {
		b := []byte(s)
		b[r.Intn(len(b))] = byte(r.Intn(256))
		s = string(b)
	}
	return s
}

// The text is the bytes' bits in groups of five, most significant first, as
// characters of the alphabet, padded with "=".  Executes encoding/base32 itself.
//
//govc:prop C08
//govc:func Encode
//govc:canon
//govc:len b 0..15,30
//govc:bounded byte strings of 0 to 15 and 30 bytes
//govc:gen Groups
func Contract_Groups(b []byte) {
	s := Encode(b)
	spec.EnsuresN("8 characters for every 5 bytes begun", len(s) == (len(b)+4)/5*8)
	for k := 0; k < len(s); k++ {
		n := 0 // value of the k-th group of five bits
		for j := 5 * k; j < 5*k+5; j++ {
			n *= 2
			if j/8 < len(b) {
				n += int(b[j/8]>>uint(7-j%8)) & 1
			}
		}
		if 5*k >= 8*len(b) {
			spec.EnsuresN("padding", s[k] == '=')
		} else {
			spec.EnsuresN("character of the group", s[k] == NdauAlphabet[n&31])
		}
	}
	d, err := Decode(s)
	spec.EnsuresN("accepted", err == nil)
	spec.EnsuresN("same length", len(d) == len(b))
	for k := range d {
		spec.EnsuresN("same bytes", d[k] == b[k])
	}
}

func Gen_Groups(r *rand.Rand) []byte {
	b := make([]byte, r.Intn(16))
	r.Read(b)
	return b
}

//govc:prop C08
//govc:func Index
func Contract_Alphabet() {
	spec.EnsuresN("32 characters", len(NdauAlphabet) == 32)
	for i := 0; i < 32; i++ {
		c := NdauAlphabet[i]
		spec.EnsuresN("position of the character", Index(NdauAlphabet[i:i+1]) == i)
		spec.EnsuresN("lower-case letters and digits, nothing confusable", (c >= 'a' && c <= 'z' || c >= '2' && c <= '9') && c != 'l' && c != 'o')
	}
}

//govc:prop C08 C15
//govc:func Check
//govc:gen Check
func Contract_Check(b []byte, ck []byte) {
	spec.Requires(len(ck) >= 2)
	s := Checksum16(b)
	spec.EnsuresN("two bytes", len(s) == 2)
	spec.EnsuresN("agrees with the checksum", Check(b, ck) == (ck[0] == s[0] && ck[1] == s[1]))
}

func Gen_Check(r *rand.Rand) (b, ck []byte) {
	b = Gen_Bytes(r)
	ck = Checksum16(b)
	if r.Intn(2) == 0 {
		ck[r.Intn(2)] ^= 1 << uint(r.Intn(8))
	}
	return b, append(ck, Gen_Bytes(r)...)
}

// The 16-bit checksum is CRC-16/AUG-CCITT, computed here bit by bit.  Executes
// sigurn/crc16 itself, with the table it builds.
//
//govc:prop C08
//govc:func Checksum16
//govc:canon
//govc:len b 0..20,28
//govc:bounded byte strings of 0 to 20 and 28 bytes
//govc:gen Short
func Contract_CRC(b []byte) {
	var reg [16]byte // bits, most significant first
	for i := range reg {
		reg[i] = byte(uint16(0x1D0F)>>uint(15-i)) & 1
	}
	for _, x := range b {
		for k := 7; k >= 0; k-- {
			top := reg[0] ^ x>>uint(k)&1
			copy(reg[:15], reg[1:])
			reg[15] = top
			reg[10] ^= top
			reg[3] ^= top
		}
	}
	s := Checksum16(b)
	spec.EnsuresN("two bytes", len(s) == 2)
	for i := range reg {
		spec.EnsuresN("bit of the checksum", s[i/8]>>uint(7-i%8)&1 == reg[i])
	}
	spec.EnsuresN("own checksum accepted", Check(b, s))
}

func Gen_Short(r *rand.Rand) []byte {
	b := make([]byte, r.Intn(30))
	r.Read(b)
	return b
}

//govc:prop C08
//govc:func Checksum24
//govc:gen Bytes
func Contract_Checksum24(b []byte) {
	h := sha256.Sum256(b)
	s := Checksum24(b)
	spec.EnsuresN("the first three bytes of the SHA-256 hash", spec.BytesEq(s, h[:3]))
}
