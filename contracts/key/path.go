package key

import (
	"encoding/binary"
	"errors"
	"fmt"
	"math/rand"
	"strings"

	"verif.local/spec"
)

//govc:needs bip32 signature

func Gen_PathText(r *rand.Rand) string {
	if r.Intn(4) == 0 {
		b := make([]byte, r.Intn(8))
		for i := range b {
			b[i] = "/0123' 9x-"[r.Intn(10)]
		}
		return string(b)
	}
	s := ""
	for i := r.Intn(5); i >= 0; i-- {
		n := []uint64{0, 1, 44, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, uint64(r.Intn(1000))}[r.Intn(8)]
		s += fmt.Sprintf("/%d", n)
		if r.Intn(2) == 0 {
			s += "'"
		}
		if r.Intn(8) == 0 {
			s += " "
		}
	}
	return s
}

type zzElem struct {
	id     spec.Z
	harden bool
}

// zzParse: a path is / or a sequence of numbers, each after a slash and
// followed by an apostrophe if hardened; spaces do not count.
//
//govc:helper
func zzParse(s string) ([]zzElem, bool) {
	var t []byte
	for i := 0; i < len(s); i++ {
		if s[i] != ' ' {
			t = append(t, s[i])
		}
	}
	p := []zzElem{}
	if len(t) == 1 && t[0] == '/' {
		return p, true
	}
	if len(t) == 0 {
		return nil, false
	}
	for i := 0; i < len(t); {
		if t[i] != '/' {
			return nil, false
		}
		i++
		n := spec.I(0)
		digits := 0
		for i < len(t) && t[i] >= '0' && t[i] <= '9' {
			n = n.Mul(spec.I(10)).Add(spec.I(int64(t[i]) - '0'))
			digits++
			i++
		}
		if digits == 0 || !n.Lt(spec.Pow2(32)) {
			return nil, false
		}
		e := zzElem{id: n}
		if i < len(t) && t[i] == '\'' {
			e.harden = true
			i++
		}
		p = append(p, e)
	}
	return p, true
}

//govc:helper
func zzSamePath(a path, b []zzElem) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !spec.U(uint64(a[i].id)).Eq(b[i].id) || a[i].harden != b[i].harden {
			return false
		}
	}
	return true
}

// Paths.
//
//govc:prop C20
//govc:func newPath
//govc:gen PathText
//govc:len s 0..8
//govc:noprune
//govc:bounded texts of up to 8 bytes (any bytes)
func Contract_NewPath(s string) {
	p, err := newPath(s)
	want, ok := zzParse(s)
	spec.EnsuresN("accepted exactly if a path", (err == nil) == ok)
	if ok && err == nil {
		spec.EnsuresN("its elements", zzSamePath(p, want))
	}
}

func Gen_Digits(r *rand.Rand) (string, bool) {
	s := fmt.Sprint([]uint64{0, 44, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, 4294967300, r.Uint64(), uint64(r.Uint32())}[r.Intn(9)])
	for r.Intn(2) == 0 {
		s = "0" + s
	}
	return s, r.Intn(2) == 0
}

// Numbers of any size up to twelve digits.
//
//govc:prop C20
//govc:func newPath
//govc:gen Digits
//govc:len d 1..12
//govc:noprune
//govc:bounded numbers of up to 12 digits
func Contract_Numbers(d string, hard bool) {
	spec.Requires(len(d) >= 1 && len(d) <= 12)
	n := spec.I(0)
	for i := 0; i < len(d); i++ {
		spec.Requires(d[i] >= '0' && d[i] <= '9')
		n = n.Mul(spec.I(10)).Add(spec.I(int64(d[i]) - '0'))
	}
	q := ""
	if hard {
		q = "'"
	}
	p, err := newPath("/" + d + q + "/5")
	spec.EnsuresN("accepted exactly if 32 bits", (err == nil) == n.Lt(spec.Pow2(32)))
	if err == nil {
		spec.EnsuresN("elements", len(p) == 2 && spec.U(uint64(p[0].id)).Eq(n) && p[0].harden == hard && p[1].id == 5 && !p[1].harden)
	}
}

func zzRandomPath(r *rand.Rand, n int) path {
	p := make(path, n)
	for i := range p {
		p[i] = pathElement{id: uint32(r.Intn(3)), harden: r.Intn(2) == 0}
	}
	return p
}

func Gen_Parent(r *rand.Rand) (path, path) {
	c := zzRandomPath(r, r.Intn(22))
	p := append(path{}, c[:r.Intn(len(c)+1)]...)
	if len(p) > 20 {
		p = p[:20]
	}
	if len(p) > 0 && r.Intn(3) == 0 {
		p[r.Intn(len(p))] = pathElement{id: uint32(r.Intn(3)), harden: r.Intn(2) == 0}
	}
	return p, c
}

// A parent is a proper prefix.
//
//govc:prop C20
//govc:func path.isParentOf
//govc:gen Parent
//govc:len p 0..6,8,12,20
//govc:len c 0..7,9,13,21
//govc:noprune
//govc:bounded paths of up to 20 and 21 elements
func Contract_IsParentOf(p, c path) {
	spec.Requires(len(p) <= 20 && len(c) <= 21)
	want := len(p) < len(c)
	for i := 0; i < len(p) && i < len(c); i++ {
		want = want && p[i].id == c[i].id && p[i].harden == c[i].harden
	}
	spec.EnsuresN("proper prefix", p.isParentOf(c) == want)
}

// Paths as abstract values: up to four elements, of which nothing is known.
//
//govc:model newPath
//govc:optional
func Model_newPath(s string) (path, error) {
	if !spec.FnBool("isPath", s) {
		return nil, errors.New("no path")
	}
	n := spec.FnZ("pathLen", s)
	spec.Assume(spec.I(0).Le(n) && n.Le(spec.I(4)))
	p := path{}
	for i := 0; i < 4; i++ {
		if n.Le(spec.I(int64(i))) {
			break
		}
		p = append(p, pathElement{binary.BigEndian.Uint32(spec.Fn("pathElement", 4, s, i)), spec.FnBool("pathHard", s, i)})
	}
	return p, nil
}

func Gen_Derive(r *rand.Rand) (key, chain, fp []byte, depth byte, num uint32, private bool, a, b string) {
	key, chain, fp, depth, num, private = Gen_Any(r)
	if r.Intn(2) == 0 {
		depth = byte(r.Intn(4))
	}
	b = Gen_PathText(r)
	a = []string{"/", "", b, "/0"}[r.Intn(4)]
	if i := strings.LastIndex(b, "/"); i > 0 && r.Intn(2) == 0 {
		a = b[:i]
	}
	return
}

// Derivation by path is derivation by its elements, one after the other.
//
//govc:prop C20
//govc:func (*ExtendedKey).DeriveFrom
//govc:gen Derive
//govc:noprune
//govc:uses Model_newPath Model_Child Model_HardenedChild
//govc:bounded paths of up to 4 elements
func Contract_DeriveFrom(key, chain, fp []byte, depth byte, num uint32, private bool, a, b string) {
	spec.Requires(len(key) == zzKeyLen(private) && len(chain) == 32 && len(fp) == 3)
	k := NewExtendedKey(key, chain, fp, depth, num, private)
	d, err := k.DeriveFrom(a, b)
	spec.EnsuresN("key unchanged", spec.BytesEq(k.key, key) && spec.BytesEq(k.chainCode, chain) && spec.BytesEq(k.parentFP, fp) && k.depth == depth && k.childNum == num && k.isPrivate == private)
	p, perr := newPath(a)
	c, cerr := newPath(b)
	if perr != nil || cerr != nil || !p.isParentOf(c) {
		spec.EnsuresN("refused", err != nil && d == nil)
		return
	}
	w := k
	for _, e := range c[len(p):] {
		var werr error
		if e.harden {
			w, werr = w.HardenedChild(e.id)
		} else {
			w, werr = w.Child(e.id)
		}
		if werr != nil {
			spec.EnsuresN("no such child", err != nil && d == nil)
			return
		}
	}
	spec.EnsuresN("derived", err == nil && zzSame(d, w))
}

func Gen_Long(r *rand.Rand) (string, int) {
	b := make([]byte, 1+r.Intn(40))
	for i := range b {
		b[i] = byte('0' + r.Intn(10))
	}
	return string(b), r.Intn(4)
}

// zzHard: of which elements of a long path the numbers are followed by an
// apostrophe.
//
//govc:helper
func zzHard(m, i int) bool { return m == 1 || m == 2 && i%2 == 0 || m == 3 && i%2 == 1 }

// Long paths.
//
//govc:prop C20
//govc:func newPath
//govc:gen Long
//govc:noprune
//govc:len d 5,9,12,20,40
//govc:len m 0..3
//govc:bounded paths of 5, 9, 12, 20 and 40 one-digit elements
func Contract_LongPath(d string, m int) {
	spec.Requires(m >= 0 && m <= 3)
	s := ""
	for i := 0; i < len(d); i++ {
		spec.Requires(d[i] >= '0' && d[i] <= '9')
		s += "/" + d[i:i+1]
		if zzHard(m, i) {
			s += "'"
		}
	}
	p, err := newPath(s)
	spec.EnsuresN("accepted", err == nil && len(p) == len(d))
	for i := range p {
		spec.EnsuresN("element", p[i].id == uint32(d[i]-'0') && p[i].harden == zzHard(m, i))
	}
}

func Gen_DeriveLong(r *rand.Rand) (key, chain, fp []byte, depth byte, n, m int) {
	key, chain, fp, depth, _, _ = Gen_Child(r)
	return key, chain, fp, depth, 5 + r.Intn(15), r.Intn(4)
}

// Derivation by a long path.
//
//govc:prop C20
//govc:func (*ExtendedKey).DeriveFrom
//govc:gen DeriveLong
//govc:noprune
//govc:uses Model_Child Model_HardenedChild
//govc:len n 5,6,9,12,20
//govc:len m 0..3
//govc:bounded paths of 5, 6, 9, 12 and 20 elements with numbers of three digits
func Contract_DeriveLong(key, chain, fp []byte, depth byte, n, m int) {
	spec.Requires(len(key) == 32 && len(chain) == 32 && len(fp) == 3)
	spec.Requires(n >= 5 && n <= 20 && m >= 0 && m <= 3)
	a, b := "", ""
	for i := 0; i < n; i++ {
		b += "/" + string([]byte{byte('1' + i%9), byte('0' + i%7), byte('0' + i/10)})
		if zzHard(m, i) {
			b += "'"
		}
		if i == n/2-2 {
			a = b
		}
	}
	k := NewExtendedKey(key, chain, fp, depth, 0, true)
	d, err := k.DeriveFrom(a, b)
	w := k
	for i := n/2 - 1; i < n; i++ {
		var werr error
		id := uint32(100*(1+i%9) + 10*(i%7) + i/10)
		if zzHard(m, i) {
			w, werr = w.HardenedChild(id)
		} else {
			w, werr = w.Child(id)
		}
		if werr != nil {
			spec.EnsuresN("no such child", err != nil && d == nil)
			return
		}
	}
	spec.EnsuresN("derived", err == nil && d != nil)
	spec.EnsuresN("same key", spec.BytesEq(d.key, w.key) && spec.BytesEq(d.chainCode, w.chainCode) && spec.BytesEq(d.parentFP, w.parentFP))
	spec.EnsuresN("same place", d.depth == w.depth && d.childNum == w.childNum && d.isPrivate == w.isPrivate)
}
