package words

import (
	"errors"
	"math/rand"
	"strings"

	"verif.local/spec"
)

// wordsAt lists the words at the given positions (taken modulo 2048).
//
//govc:helper
func wordsAt(idx []uint16) []string {
	ws := make([]string, len(idx))
	for k, i := range idx {
		ws[k] = _english[i&2047]
	}
	return ws
}

// pack lays the 11 bit positions end to end, most significant bit first, and
// keeps the first n bytes.
//
//govc:helper
func pack(idx []uint16, n int) []byte {
	b := make([]byte, n)
	for i := 0; i < 8*n; i++ {
		b[i/8] |= byte(idx[i/11]>>uint(10-i%11)&1) << uint(7-i%8)
	}
	return b
}

//govc:helper
func sameWords(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func Gen_Idx(r *rand.Rand) []uint16 {
	b := make([]byte, r.Intn(33))
	r.Read(b)
	ws, _ := FromBytes("en", b)
	var idx []uint16
	for _, w := range ws {
		i, _ := lookupWord("en", w)
		idx = append(idx, uint16(i))
	}
	return idx
}

// What looking up a word does; justified by the contracts that follow.
//
//govc:model lookupWord
func Model_lookupWord(lang, s string) (int, error) {
	if lang != "en" {
		return 0, errors.New("language")
	}
	i := spec.StrIndex(_english, s)
	if i < 0 {
		return 0, errors.New("word")
	}
	return i, nil
}

// Every word is found at its own position.
//
//govc:prop C04 C05
//govc:func lookupWord
//govc:opaque
//govc:nomerge
//govc:noprune
func Contract_LookupListed(i uint16) {
	spec.Requires(i < 2048)
	n, err := lookupWord("en", _english[i])
	spec.EnsuresN("found", err == nil)
	spec.EnsuresN("own position", n == int(i))
}

// Nothing else is found.
//
//govc:prop C04 C05
//govc:func lookupWord
//govc:opaque
//govc:nomerge
//govc:noprune
func Contract_LookupOther(lang, s string) {
	n, err := lookupWord(lang, s)
	if err == nil {
		spec.EnsuresN("the language", lang == "en")
		spec.EnsuresN("a position", n >= 0 && n < len(_english))
		spec.EnsuresN("its word", s == _english[n])
	}
}

// A list that is accepted is the one that the returned bytes are written as.
//
//govc:prop C05 C15
//govc:func ToBytes
//govc:canon
//govc:opaque
//govc:len idx 0..25,32,47
//govc:gen Idx
func Contract_AcceptsOnlyCanonical(idx []uint16) {
	ws := wordsAt(idx)
	b, err := ToBytes("en", ws)
	if err == nil {
		back, err := FromBytes("en", b)
		spec.EnsuresN("can be written", err == nil)
		spec.EnsuresN("same words", sameWords(back, ws))
	}
}

// The word list of bytes is read back as those bytes.  The one exception,
// which is a known finding, is data whose list is also the list of the same
// data without its last byte: then that shorter reading is returned.
//
//govc:prop C04
//govc:func ToBytes
//govc:canon
//govc:opaque
//govc:unroll 600
//govc:len idx 0..25,32,47
//govc:gen Idx
func Contract_RoundTrip(idx []uint16) {
	ws := wordsAt(idx)
	n := len(idx)
	for size := n * 11 / 8; size >= 0; size-- {
		if (8*size+4+10)/11 != n {
			continue
		}
		data := pack(idx, size)
		list, err := FromBytes("en", data)
		spec.EnsuresN("can be written", err == nil)
		if !sameWords(list, ws) {
			continue
		}
		got, err := ToBytes("en", list)
		spec.EnsuresN("can be read", err == nil)
		if len(got) != size {
			spec.EnsuresN("one byte shorter", len(got) == size-1)
			shorter, err := FromBytes("en", got)
			spec.EnsuresN("shorter reading has the same list", err == nil && sameWords(shorter, ws))
			spec.EnsuresN("start of the bytes", spec.BytesEq(got, data[:size-1]))
			continue
		}
		spec.EnsuresN("same bytes", spec.BytesEq(got, data))
	}
}

// The bits of the data are the first bits of the words' positions, so that
// the lists in Contract_RoundTrip are the lists of all data.
//
//govc:prop C04
//govc:func FromBytes
//govc:canon
//govc:opaque
//govc:len b 0..34,44,64
//govc:gen Bytes
func Contract_Positions(b []byte) {
	ws, err := FromBytes("en", b)
	spec.EnsuresN("accepted", err == nil)
	spec.EnsuresN("as many words as the data and 4 bits need", len(ws) == (8*len(b)+4+10)/11)
	for k, w := range ws {
		i := spec.StrIndex(_english, w)
		spec.EnsuresN("a listed word", i >= 0)
		for j := 0; j < 11 && 11*k+j < 8*len(b); j++ {
			m := 11*k + j
			spec.EnsuresN("bit of the data", i>>uint(10-j)&1 == int(b[m/8]>>uint(7-m%8)&1))
		}
	}
}

func Gen_Bytes(r *rand.Rand) []byte {
	b := make([]byte, r.Intn(34))
	r.Read(b)
	return b
}

// Other languages are refused.
//
//govc:prop C04 C05
//govc:func ToBytes
//govc:canon
//govc:opaque
//govc:bounded data of up to 3 bytes, lists of one word
//govc:len b 0..3
func Contract_Language(lang string, b []byte, w string) {
	spec.Requires(lang != "en")
	_, err := FromBytes(lang, b)
	spec.EnsuresN("not written", err != nil)
	_, err = ToBytes(lang, []string{w})
	spec.EnsuresN("not read", err != nil)
}

// A list that contains an unlisted word is refused.
//
//govc:prop C05 C15
//govc:func ToBytes
//govc:canon
//govc:opaque
//govc:unroll 600
//govc:len ws 1..25,32,47
//govc:gen Words
func Contract_UnlistedWord(ws []string) {
	bad := false
	for _, w := range ws {
		if spec.StrIndex(_english, w) < 0 {
			bad = true
		}
	}
	spec.Requires(bad)
	_, err := ToBytes("en", ws)
	spec.EnsuresN("refused", err != nil)
}

func Gen_Words(r *rand.Rand) []string {
	ws := wordsAt(Gen_Idx(r))
	if len(ws) > 0 {
		w := &ws[r.Intn(len(ws))]
		switch r.Intn(5) {
		case 0:
			*w = ""
		case 1:
			*w += "s"
		case 2:
			*w = (*w)[:len(*w)-1]
		case 3:
			*w = "zzz"
		case 4:
			*w = strings.ToUpper(*w)
		}
	}
	return ws
}

// The known exception of Contract_RoundTrip, for one input.
//
//govc:prop C04
//govc:func ToBytes
//govc:opaque
//govc:unroll 600
func Contract_AmbiguousData() {
	data := []byte{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 9, 0}
	list, _ := FromBytes("en", data)
	got, err := ToBytes("en", list)
	spec.EnsuresN("can be read", err == nil)
	spec.EnsuresN("16 bytes read back", spec.BytesEq(got, data))
}

// The list: 2048 words in strictly increasing order.
//
//govc:prop C07 C05
//govc:func FromPrefix
//govc:unroll 3000
func Contract_List() {
	spec.EnsuresN("2048 words", len(_english) == 2048)
	for i := 1; i < len(_english); i++ {
		spec.EnsuresN("increasing order", _english[i-1] < _english[i])
	}
}

//govc:prop C07
//govc:func FromPrefix
//govc:nomerge
//govc:noprune
//govc:unroll 3000
//govc:len c 97..122
//govc:len prefix 1..9
//govc:gen Prefix
func Contract_FromPrefix(c int, prefix string, max int) {
	spec.Requires(len(prefix) > 0 && prefix[0] == byte(c))
	lo, hi := len(_english), 0
	for i, w := range _english {
		if w[0] == byte(c) {
			if lo > i {
				lo = i
			}
			hi = i + 1
		}
	}
	got := FromPrefix("en", prefix, max)
	var want []string
	for i := lo; i < hi; i++ {
		if max > 0 && len(want) == max {
			break
		}
		if strings.HasPrefix(_english[i], prefix) {
			want = append(want, _english[i])
		}
	}
	spec.EnsuresN("the words with this prefix, in order", got == strings.Join(want, " "))
}

func Gen_Prefix(r *rand.Rand) (int, string, int) {
	w := _english[r.Intn(len(_english))]
	p := w[:1+r.Intn(len(w))]
	if r.Intn(5) == 0 {
		p += "q"
	}
	return int(p[0]), p, r.Intn(30) - 2
}

//govc:prop C07
//govc:func FromPrefix
//govc:nomerge
//govc:noprune
//govc:unroll 3000
//govc:len prefix 1..9
//govc:gen Other
func Contract_OtherFirstCharacter(prefix string, max int) {
	spec.Requires(len(prefix) > 0 && (prefix[0] < 'a' || prefix[0] > 'z'))
	spec.EnsuresN("no words", FromPrefix("en", prefix, max) == "")
}

func Gen_Other(r *rand.Rand) (string, int) {
	b := make([]byte, 1+r.Intn(4))
	r.Read(b)
	return string(b), r.Intn(30) - 2
}

//govc:prop C07
//govc:func FromPrefix
//govc:nomerge
//govc:noprune
//govc:unroll 3000
//govc:bounded listed values of max
//govc:len max -1..33,100,2047,2048,2049,5000
func Contract_EmptyPrefix(max int) {
	got := FromPrefix("en", "", max)
	n := len(_english)
	if max > 0 && max < n {
		n = max
	}
	spec.EnsuresN("the first words", got == strings.Join(_english[:n], " "))
}

//govc:prop C07
//govc:func FromPrefix
func Contract_PrefixLanguage(lang, prefix string, max int) {
	spec.Requires(lang != "en")
	spec.EnsuresN("no words", FromPrefix(lang, prefix, max) == "")
}
