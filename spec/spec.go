// Package spec is the specification vocabulary of the contracts in
// /verif/contracts.  govc gives every function here a logical meaning; the
// bodies below give the same contracts an executable meaning, which the
// replay and the assumption-validation runs use.
package spec

import (
	"bytes"
	"fmt"
	"math/big"
	"reflect"
)

// Skip is panicked when a precondition does not hold for a concrete input.
type Skip struct{}

// Failure is panicked when a postcondition does not hold for a concrete input.
type Failure struct{ Msg string }

var modified []interface{}

// ResetModified forgets the declared frame.
func ResetModified() { modified = nil }

// IsModified reports whether the frame allows p to change.
func IsModified(p interface{}) bool {
	for _, m := range modified {
		if sameRef(m, p) {
			return true
		}
	}
	return false
}

func sameRef(a, b interface{}) bool {
	x, y := reflect.ValueOf(a), reflect.ValueOf(b)
	if !x.IsValid() || !y.IsValid() || x.Kind() != y.Kind() {
		return false
	}
	switch x.Kind() {
	case reflect.Ptr, reflect.Slice:
		return x.Pointer() == y.Pointer()
	}
	return false
}

// Requires states a precondition.
func Requires(b bool) {
	if !b {
		panic(Skip{})
	}
}

// Ensures states a postcondition (or, in a lemma, the conclusion).
func Ensures(b bool) {
	if !b {
		panic(Failure{"ensures"})
	}
}

// EnsuresN is Ensures with a stable name for the obligation.
func EnsuresN(name string, b bool) {
	if !b {
		panic(Failure{name})
	}
}

// Assert is an intermediate proof step.
func Assert(b bool) {
	if !b {
		panic(Failure{"assert"})
	}
}

// Invariant states a loop invariant (only inside Loop_ functions).
func Invariant(b bool) {}

// Modifies declares the objects (pointers or slices) a function may change.
func Modifies(p ...interface{}) { modified = append(modified, p...) }

// Implies is logical implication.
func Implies(a, b bool) bool { return !a || b }

// Forall quantifies over lo <= i < hi.
func Forall(lo, hi int, f func(i int) bool) bool {
	for i := lo; i < hi; i++ {
		if !f(i) {
			return false
		}
	}
	return true
}

// Exists quantifies over lo <= i < hi.
func Exists(lo, hi int, f func(i int) bool) bool {
	for i := lo; i < hi; i++ {
		if f(i) {
			return true
		}
	}
	return false
}

// BytesEq compares two byte slices by content.
func BytesEq(a, b []byte) bool { return bytes.Equal(a, b) }

// Copy snapshots a byte slice.
func Copy(b []byte) []byte { return append([]byte{}, b...) }

// SameArray reports whether two non-empty slices start at the same memory.
func SameArray(a, b []byte) bool {
	return len(a) > 0 && len(b) > 0 && &a[0] == &b[0]
}

// Disjoint reports whether the memory of two slices does not overlap (up to capacity).
func Disjoint(a, b []byte) bool {
	a, b = a[:cap(a)], b[:cap(b)]
	for i := range a {
		for j := range b {
			if &a[i] == &b[j] {
				return false
			}
		}
	}
	return true
}

// StrIndex is the position of s in a table without duplicates, or -1.
func StrIndex(table []string, s string) int {
	for i, x := range table {
		if x == s {
			return i
		}
	}
	return -1
}

// Z is a mathematical integer.
type Z struct{ v *big.Int }

func (z Z) big() *big.Int {
	if z.v == nil {
		return new(big.Int)
	}
	return z.v
}

// I injects a signed machine integer.
func I(x int64) Z { return Z{big.NewInt(x)} }

// U injects an unsigned machine integer.
func U(x uint64) Z { return Z{new(big.Int).SetUint64(x)} }

// Pow10 is 10^n.
func Pow10(n int) Z { return Z{new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(n)), nil)} }

// Pow2 is 2^n.
func Pow2(n int) Z { return Z{new(big.Int).Lsh(big.NewInt(1), uint(n))} }

// Dec is a literal in decimal notation.
func Dec(s string) Z {
	v, ok := new(big.Int).SetString(s, 10)
	if !ok {
		panic("spec.Dec: " + s)
	}
	return Z{v}
}

func (a Z) Add(b Z) Z     { return Z{new(big.Int).Add(a.big(), b.big())} }
func (a Z) Sub(b Z) Z     { return Z{new(big.Int).Sub(a.big(), b.big())} }
func (a Z) Mul(b Z) Z     { return Z{new(big.Int).Mul(a.big(), b.big())} }
func (a Z) Neg() Z        { return Z{new(big.Int).Neg(a.big())} }

// Div is Euclidean division (the remainder is never negative).
func (a Z) Div(b Z) Z { return Z{new(big.Int).Div(a.big(), b.big())} }

// Mod is the Euclidean remainder.
func (a Z) Mod(b Z) Z { return Z{new(big.Int).Mod(a.big(), b.big())} }

// Quo is division truncated towards zero.
func (a Z) Quo(b Z) Z { return Z{new(big.Int).Quo(a.big(), b.big())} }

// Rem is the remainder of Quo.
func (a Z) Rem(b Z) Z     { return Z{new(big.Int).Rem(a.big(), b.big())} }
func (a Z) Eq(b Z) bool   { return a.big().Cmp(b.big()) == 0 }
func (a Z) Lt(b Z) bool   { return a.big().Cmp(b.big()) < 0 }
func (a Z) Le(b Z) bool   { return a.big().Cmp(b.big()) <= 0 }
func (a Z) String() string { return a.big().String() }

// IsI64 reports whether the value fits a signed 64-bit integer.
func (a Z) IsI64() bool { return a.big().IsInt64() }

// IsU64 reports whether the value fits an unsigned 64-bit integer.
func (a Z) IsU64() bool { return a.big().IsUint64() }

// SeqNum is the number a byte string denotes, big endian.
func SeqNum(b []byte) Z { return Z{new(big.Int).SetBytes(b)} }

var _ = fmt.Sprint

// ---- for models of dependencies: uninterpreted functions.  These have no
// executable meaning; models are never run, only reasoned with.

// Fn is an unknown function of its arguments ([]byte, string, bool, Z or
// integers) whose value is n bytes long (any length if n is negative).
func Fn(name string, n int, args ...interface{}) []byte { panic("spec.Fn " + name) }

// FnList is an unknown list of strings that depends on the arguments.  Lists
// made by FnList can be arguments of these functions.
func FnList(name string, args ...interface{}) []string { panic("spec.FnList " + name) }

// FnBool is an unknown predicate of its arguments.
func FnBool(name string, args ...interface{}) bool { panic("spec.FnBool " + name) }

// FnZ is an unknown integer function of its arguments.
func FnZ(name string, args ...interface{}) Z { panic("spec.FnZ " + name) }

// Any is n arbitrary bytes (any number of bytes if n is negative).
func Any(n int) []byte { panic("spec.Any") }

// AnyBool is an arbitrary truth value.
func AnyBool() bool { panic("spec.AnyBool") }

// Assume states what a model assumes.
func Assume(b bool) { panic("spec.Assume") }

// FromBig is the value of a big integer.
func FromBig(x *big.Int) Z { return Z{new(big.Int).Set(x)} }

// ToBig is a new big integer.
func ToBig(z Z) *big.Int { return new(big.Int).Set(z.big()) }

// TrimSpaceModel stands for strings.TrimSpace where the bytes at the ends are
// ASCII, which is asserted.
func TrimSpaceModel(s string) string {
	i, j := 0, len(s)
	for i < j && asciiSpace(s[i]) {
		i++
	}
	for i < j && asciiSpace(s[j-1]) {
		j--
	}
	if i < j {
		Assert(s[i] < 0x80 && s[j-1] < 0x80)
	}
	return s[i:j]
}

func asciiSpace(c byte) bool {
	return c == ' ' || c == '\t' || c == '\n' || c == '\v' || c == '\f' || c == '\r'
}
