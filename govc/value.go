package main

import (
	"fmt"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// Symbolic values. *Term covers scalars, strings and (in int mode) byte
// arrays; the rest are Go-level aggregates. All are immutable.
type Val interface{}

type Struct struct {
	t types.Type
	f []Val
}
type Array struct {
	elem types.Type
	e    []Val
}

// SoA: a sequence of elements of symbolic length, one SMT array per leaf.
type SoA struct {
	elem   types.Type
	n      *Term
	leaves []*Term // parallel to leafTypes(elem)
}

type pel struct {
	field int   // struct field, when idx == nil
	idx   *Term // array index
}
type Ptr struct {
	obj  int
	path []pel
}
type Slice struct {
	obj           int
	off, len, cap *Term
	elem          types.Type
	isnil         *Term
}
type Iface struct {
	typ   types.Type // dynamic type; nil: nil interface unless sym
	v     Val
	sym   bool
	isnil *Term
	id    *Term
}
type Func struct {
	fn   *ssa.Function
	bind []Val
	nilf bool
}
type Tuple []Val
type MapV struct{ obj int }
type MapObj struct {
	kt, vt types.Type
	keys   []Val
	vals   []Val
}
type RType struct{ t types.Type }
type RValue struct {
	t types.Type
	v Val
}
type StrVec struct{ b []*Term } // string in bv mode
type Poison struct{ why string }
type MathInt struct{ t *Term } // spec.Z
type MapIter struct {
	obj int
	pos int
}

type Obj struct {
	t    types.Type // type of content (nil for backing stores)
	v    Val
	name string
	ro   bool // immutable global data
}

type State struct {
	heap   Heap
	pc     []*Term
	bd     bounds
	counts map[*ssa.BasicBlock]int
	depth  int
	ret    map[*ssa.Function][]Val // results of a havocked call, by contract
	mod    map[int]bool
	trace  []string
}

func (s *State) clone() *State {
	n := &State{heap: s.heap.clone(), pc: s.pc[:len(s.pc):len(s.pc)], depth: s.depth, mod: s.mod, ret: s.ret, trace: s.trace[:len(s.trace):len(s.trace)]}
	n.bd = make(bounds, len(s.bd))
	for k, v := range s.bd {
		n.bd[k] = v
	}
	n.counts = make(map[*ssa.BasicBlock]int, len(s.counts))
	for k, v := range s.counts {
		n.counts[k] = v
	}
	return n
}

type unsupported struct{ msg string }

func unsup(f string, a ...interface{}) { panic(unsupported{fmt.Sprintf(f, a...)}) }

// ---- integer types

func basicOf(t types.Type) *types.Basic {
	b, _ := t.Underlying().(*types.Basic)
	return b
}

func intInfo(t types.Type) (bits int, signed bool, ok bool) {
	b := basicOf(t)
	if b == nil {
		return
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	}
	return
}

func intRange(bits int, signed bool) (lo, hi *big.Int) {
	if signed {
		hi = new(big.Int).Lsh(big.NewInt(1), uint(bits-1))
		lo = new(big.Int).Neg(hi)
		hi = new(big.Int).Sub(hi, big.NewInt(1))
		return
	}
	return new(big.Int), mask(bits)
}

func isByte(t types.Type) bool {
	b := basicOf(t)
	return b != nil && b.Kind() == types.Uint8
}
func isString(t types.Type) bool {
	b := basicOf(t)
	return b != nil && (b.Kind() == types.String || b.Kind() == types.UntypedString)
}
func isBool(t types.Type) bool {
	b := basicOf(t)
	return b != nil && (b.Kind() == types.Bool || b.Kind() == types.UntypedBool)
}
func isFloat(t types.Type) bool {
	b := basicOf(t)
	return b != nil && b.Info()&types.IsFloat != 0
}

// leafTypes flattens a struct/scalar element type; nil if it has non-scalar leaves.
func leafTypes(t types.Type) []types.Type {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		var out []types.Type
		for i := 0; i < u.NumFields(); i++ {
			l := leafTypes(u.Field(i).Type())
			if l == nil {
				return nil
			}
			out = append(out, l...)
		}
		return out
	case *types.Basic:
		if _, _, ok := intInfo(t); ok || isBool(t) || isString(t) {
			return []types.Type{t}
		}
	}
	return nil
}

// Heap is a shared base plus the objects changed or created since.
type Heap struct {
	m    map[int]*Obj
	base map[int]*Obj
}

func newHeap() Heap { return Heap{m: map[int]*Obj{}} }

func (h *Heap) get(k int) *Obj {
	if o, ok := h.m[k]; ok {
		return o
	}
	return h.base[k]
}
func (h *Heap) set(k int, o *Obj) { h.m[k] = o }
func (h *Heap) clone() Heap {
	n := Heap{m: make(map[int]*Obj, len(h.m)+4), base: h.base}
	for k, v := range h.m {
		n.m[k] = v
	}
	return n
}

// freeze makes the present content the shared base.
func (h *Heap) freeze() {
	b := make(map[int]*Obj, len(h.base)+len(h.m))
	for k, v := range h.base {
		b[k] = v
	}
	for k, v := range h.m {
		b[k] = v
	}
	h.base, h.m = b, map[int]*Obj{}
}
