package main

import (
	"os"
	"runtime/debug"

	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Oblig struct {
	Name   string // stable label
	Kind   string
	Pos    string
	Func   string
	pc     []*Term
	goal   *Term
	trace  []string
	Status string // discharged / failed / undecided
	Solver string
	Out    string
	Dur    float64
}

type outcome struct {
	st  *State
	res []Val
}

type Exec struct {
	c           *Ctx
	e           *Engine
	bv          bool
	trivial     map[interface{}]*Oblig
	opaque      bool // strings are an uninterpreted sort
	merge       bool
	obls        []*Oblig
	nextObj     int
	globals     map[*ssa.Global]int
	quiet       int // suppress obligations (discovery, pure spec evaluation)
	pure        int // evaluating a spec formula: no forks allowed, use merging
	root        *Contract
	target      *ssa.Function // function whose body is being verified
	assumeMode  []*assumeFrame
	inits       map[*ssa.Package]bool
	unroll      int
	maxMake     int
	notes       map[string]bool
	models      map[string]*ssa.Function // optional models in use
	externs     map[string]bool          // external models used
	inlined     map[string]bool
	modular     map[string]bool
	callStack   []*ssa.Function
	frameFns    []*ssa.Function
	quietInit   int
	invAssume   bool
	invLabel    string
	discovering []*discover
	paths       int
	steps       int
	inputs      []inputVal
	tables      map[int]string
	inMerge     int
	noPrune     bool
	floats      map[*Term]float64
	digitVars   map[string][]*Term
	digitEqs    map[*Term]digitEq
	isDigit     map[*Term]bool
	arrRefs     bool // some array field has been sliced
	bigTabs     map[*Term]*constTable
	fset        *token.FileSet
	caseConst   map[string]int64
	curPos      token.Pos
	unsupReads  map[string]bool
	pruneCalls  int
}

type inputVal struct {
	name string
	v    Val
	t    types.Type
	st   *State
}

type assumeFrame struct {
	fn     *ssa.Function // contract function
	tgt    *ssa.Function
	caller string
}

type constTable struct {
	elems  []string
	sorted bool
}

func (ex *Exec) newObj(st *State, t types.Type, v Val, name string) int {
	ex.nextObj++
	st.heap.set(ex.nextObj, &Obj{t: t, v: v, name: name})
	return ex.nextObj
}

func (ex *Exec) note(s string) { ex.notes[s] = true }

// ---- assumptions and obligations

func (ex *Exec) assume(st *State, t *Term) bool {
	if t.isTrue() {
		return true
	}
	if t.op == "and" {
		for _, a := range t.args {
			if !ex.assume(st, a) {
				return false
			}
		}
		return true
	}
	t = ex.simp(st, t)
	if t.isFalse() {
		if debugFalse {
			fmt.Fprintln(os.Stderr, "false at", ex.posStr(ex.curPos))
			debug.PrintStack()
		}
		st.pc = append(st.pc, t)
		return false
	}
	if t.isTrue() {
		return true
	}
	st.pc = append(st.pc[:len(st.pc):len(st.pc)], t)
	// record simple bounds
	if t.op == "<=" {
		ex.learn(st, t.args[0], t.args[1])
	} else if t.op == "=" && t.args[0].sort == "Int" {
		ex.learn(st, t.args[0], t.args[1])
		ex.learn(st, t.args[1], t.args[0])
	}
	return true
}

// learn from a <= b
func (ex *Exec) learn(st *State, a, b *Term) {
	c := ex.c
	l, k := c.linDiff(a, b)
	if len(l) > 4 {
		return
	}
	for t, m := range l {
		// m*t + rest + k <= 0
		rest := lin{}
		for u, mu := range l {
			if u != t {
				rest[u] = mu
			}
		}
		rlo, _ := c.rangeLin(rest, k, st.bd)
		if rlo == nil {
			continue
		}
		// m*t <= -rlo
		v := new(big.Int).Neg(rlo)
		cur := st.bd[t]
		if m.Sign() > 0 {
			q := new(big.Int)
			q.DivMod(v, m, new(big.Int))
			cur[1] = minB(cur[1], q)
		} else {
			mm := new(big.Int).Neg(m)
			// -mm*t <= v -> t >= -v/mm ceil
			nv := new(big.Int).Neg(v)
			q, r := new(big.Int), new(big.Int)
			q.DivMod(nv, mm, r)
			if r.Sign() != 0 {
				q.Add(q, big.NewInt(1))
			}
			cur[0] = maxB(cur[0], q)
		}
		st.bd[t] = cur
	}
}

// simp re-evaluates comparisons under the path's interval knowledge.
func (ex *Exec) simp(st *State, t *Term) *Term {
	c := ex.c
	switch t.op {
	case "<=":
		l, k := c.linDiff(t.args[0], t.args[1])
		lo, hi := c.rangeLin(l, k, st.bd)
		if hi != nil && hi.Sign() <= 0 {
			return c.Bool(true)
		}
		if lo != nil && lo.Sign() > 0 {
			return c.Bool(false)
		}
	case "=":
		if t.args[0].sort == "Int" {
			l, k := c.linDiff(t.args[0], t.args[1])
			lo, hi := c.rangeLin(l, k, st.bd)
			if (lo != nil && lo.Sign() > 0) || (hi != nil && hi.Sign() < 0) {
				return c.Bool(false)
			}
			if lo != nil && hi != nil && lo.Sign() == 0 && hi.Sign() == 0 {
				return c.Bool(true)
			}
		}
	case "not":
		r := ex.simp(st, t.args[0])
		if r != t.args[0] {
			return c.Not(r)
		}
	case "and", "or":
		var out []*Term
		ch := false
		for _, a := range t.args {
			b := ex.simp(st, a)
			if b != a {
				ch = true
			}
			out = append(out, b)
		}
		if ch {
			if t.op == "and" {
				return c.And(out...)
			}
			return c.Or(out...)
		}
	}
	for _, p := range st.pc {
		if p == t {
			return c.Bool(true)
		}
	}
	if n := c.Not(t); n.op != "not" || true {
		for _, p := range st.pc {
			if p == n {
				return c.Bool(false)
			}
		}
	}
	return t
}

func (ex *Exec) oblige(st *State, kind, label string, pos token.Pos, goal *Term) bool {
	if ex.quiet > 0 {
		return ex.assume(st, goal)
	}
	g := ex.simp(st, goal)
	if ex.digitEqs != nil {
		g = ex.elimDigits(st, g)
	}
	type key struct {
		kind, label string
		pos         token.Pos
	}
	if g.isTrue() {
		// one record for all paths on which it is trivial
		k := key{kind, label, pos}
		if o := ex.trivial[k]; o != nil {
			ex.obls = append(ex.obls, o)
			return true
		}
		if ex.trivial == nil {
			ex.trivial = map[interface{}]*Oblig{}
		}
		defer func() { ex.trivial[k] = ex.obls[len(ex.obls)-1] }()
	}
	fn := ""
	if len(ex.callStack) > 0 {
		fn = ex.callStack[len(ex.callStack)-1].String()
	}
	o := &Oblig{Kind: kind, Name: label, Func: fn, pc: st.pc[:len(st.pc):len(st.pc)], goal: g, trace: st.trace}
	if pos.IsValid() {
		p := ex.fset.Position(pos)
		o.Pos = fmt.Sprintf("%s:%d", shortFile(p.Filename), p.Line)
	}
	if g.isTrue() {
		o.Status = "discharged"
		o.Solver = "simplifier"
	}
	ex.obls = append(ex.obls, o)
	return ex.assume(st, goal)
}

func shortFile(f string) string {
	if i := strings.Index(f, "/pkg/"); i >= 0 {
		return f[i+1:]
	}
	return f
}

// ---- fresh values

func (ex *Exec) freshTerm(t types.Type, name string) *Term {
	c := ex.c
	if isBool(t) {
		return c.Var(name, "Bool")
	}
	if b, s, ok := intInfo(t); ok {
		if ex.bv {
			return c.Var(name, bvs(b))
		}
		lo, hi := intRange(b, s)
		return c.VarRange(name, lo, hi)
	}
	if isString(t) {
		if ex.opaque {
			return c.Var(name, "Str")
		}
		return c.Var(name, "Seq")
	}
	if isFloat(t) {
		return c.Var(name, "Float")
	}
	return nil
}

func (ex *Exec) fresh(st *State, t types.Type, name string) Val {
	c := ex.c
	if isZ(t) {
		return MathInt{c.Var(name, "Int")}
	}
	if isBigInt(t) {
		return &Struct{t: t, f: []Val{c.Var(name, "Int")}}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if k, ok := ex.caseConst[name]; ok && u.Info()&types.IsInteger != 0 {
			return ex.intConst(big.NewInt(k), t)
		}
		if k, ok := ex.caseConst[name]; ok && isString(t) && ex.bv && !ex.opaque {
			v := &StrVec{}
			for i := int64(0); i < k; i++ {
				v.b = append(v.b, c.Var(fmt.Sprintf("%s.%d", name, i), "BV8"))
			}
			return v
		}
		if k, ok := ex.caseConst[name]; ok && isString(t) && !ex.opaque {
			return c.FixLen(c.Var(name, "Seq"), k)
		}
		if x := ex.freshTerm(t, name); x != nil {
			if isString(t) && ex.bv && !ex.opaque {
				unsup("symbolic string in bv mode: %s", name)
			}
			return x
		}
	case *types.Struct:
		s := &Struct{t: t}
		for i := 0; i < u.NumFields(); i++ {
			s.f = append(s.f, ex.fresh(st, u.Field(i).Type(), name+"."+u.Field(i).Name()))
		}
		return s
	case *types.Array:
		if isByte(u.Elem()) && !ex.bv {
			return c.FixLen(c.Var(name, "Seq"), u.Len())
		}
		a := &Array{elem: u.Elem()}
		for i := int64(0); i < u.Len(); i++ {
			a.e = append(a.e, ex.fresh(st, u.Elem(), fmt.Sprintf("%s.%d", name, i)))
		}
		return a
	case *types.Pointer:
		v := ex.fresh(st, u.Elem(), name)
		return Ptr{obj: ex.newObj(st, u.Elem(), v, name)}
	case *types.Slice:
		return ex.freshSlice(st, u.Elem(), name)
	case *types.Interface:
		return Iface{sym: true, isnil: c.Var(name+".isnil", "Bool"), id: c.Var(name+".id", "Int")}
	case *types.Tuple:
		var out Tuple
		for i := 0; i < u.Len(); i++ {
			out = append(out, ex.fresh(st, u.At(i).Type(), fmt.Sprintf("%s.%d", name, i)))
		}
		return out
	case *types.Signature:
		return Poison{"fresh func " + name}
	case *types.Map:
		return Poison{"fresh map " + name}
	}
	return Poison{"fresh " + t.String()}
}

func (ex *Exec) freshSlice(st *State, elem types.Type, name string) Val {
	c := ex.c
	if k, ok := ex.caseConst[name]; ok || ex.bv {
		if !ok {
			unsup("slice %s of unknown length in bv mode (add a //govc:len directive)", name)
		}
		n := c.Int(k)
		var content Val
		if isByte(elem) && !ex.bv {
			content = c.FixLen(c.Var(name, "Seq"), k)
		} else {
			a := &Array{elem: elem}
			for i := int64(0); i < k; i++ {
				a.e = append(a.e, ex.fresh(st, elem, fmt.Sprintf("%s.%d", name, i)))
			}
			content = a
		}
		return Slice{obj: ex.newObj(st, nil, content, name), off: c.Int(0), len: n, cap: n, elem: elem, isnil: c.Bool(false)}
	}
	isnil := c.Var(name+".isnil", "Bool")
	if isByte(elem) {
		content := c.Var(name, "Seq")
		n := c.VarRange(name+".slen", new(big.Int), maxLen)
		// backing store = visible part ++ spare capacity
		spare := c.Var(name+".spare", "Seq")
		all := c.Cat(content, spare)
		_ = n
		obj := ex.newObj(st, nil, all, name)
		ex.assume(st, c.Implies(isnil, c.Eq(c.Len(content), c.Int(0))))
		ex.assume(st, c.Implies(isnil, c.Eq(c.Len(spare), c.Int(0))))
		return Slice{obj: obj, off: c.Int(0), len: c.Len(content), cap: c.Add(c.Len(content), c.Len(spare)), elem: elem, isnil: isnil}
	}
	if lt := leafTypes(elem); lt != nil {
		n := c.VarRange(name+".len", new(big.Int), maxLen)
		s := &SoA{elem: elem, n: n}
		for i, l := range lt {
			s.leaves = append(s.leaves, ex.freshArr(l, fmt.Sprintf("%s.l%d", name, i)))
		}
		obj := ex.newObj(st, nil, s, name)
		ex.assume(st, c.Implies(isnil, c.Eq(n, c.Int(0))))
		return Slice{obj: obj, off: c.Int(0), len: n, cap: n, elem: elem, isnil: isnil}
	}
	return Poison{"fresh slice of " + elem.String()}
}

func (ex *Exec) freshArr(l types.Type, name string) *Term {
	c := ex.c
	switch {
	case isBool(l):
		return c.Var(name, "Arr:Bool")
	case isString(l):
		if ex.opaque {
			return c.Var(name, "Arr:Str")
		}
		return c.Var(name, "Arr:Seq")
	}
	b, s, _ := intInfo(l)
	a := c.Var(name, "Arr:Int")
	a.lo, a.hi = intRange(b, s)
	return a
}

// ---- zero values

func (ex *Exec) zero(t types.Type) Val {
	c := ex.c
	if isZ(t) {
		return MathInt{c.Int(0)}
	}
	if isBigInt(t) {
		return &Struct{t: t, f: []Val{c.Int(0)}}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if isBool(t) {
			return c.Bool(false)
		}
		if b, _, ok := intInfo(t); ok {
			if ex.bv {
				return c.BV(new(big.Int), b)
			}
			return c.Int(0)
		}
		if isString(t) {
			return ex.strConst("")
		}
		if isFloat(t) {
			return ex.floatConst(0)
		}
		if u.Kind() == types.UntypedNil || u.Kind() == types.UnsafePointer {
			return Ptr{}
		}
	case *types.Struct:
		s := &Struct{t: t}
		for i := 0; i < u.NumFields(); i++ {
			s.f = append(s.f, ex.zero(u.Field(i).Type()))
		}
		return s
	case *types.Array:
		if isByte(u.Elem()) && !ex.bv {
			if u.Len() > 1<<16 {
				return Poison{"big array"}
			}
			return c.Lit(string(make([]byte, u.Len())))
		}
		a := &Array{elem: u.Elem()}
		z := ex.zero(u.Elem())
		if u.Len() > 1<<16 {
			return Poison{"big array"}
		}
		for i := int64(0); i < u.Len(); i++ {
			a.e = append(a.e, z)
		}
		return a
	case *types.Pointer:
		return Ptr{}
	case *types.Slice:
		return ex.nilSlice(u.Elem())
	case *types.Interface:
		return Iface{}
	case *types.Map:
		return MapV{}
	case *types.Signature:
		return Func{nilf: true}
	case *types.Chan:
		return Poison{"chan"}
	case *types.Tuple:
		var out Tuple
		for i := 0; i < u.Len(); i++ {
			out = append(out, ex.zero(u.At(i).Type()))
		}
		return out
	}
	return Poison{"zero " + t.String()}
}

func (ex *Exec) nilSlice(elem types.Type) Slice {
	c := ex.c
	return Slice{off: c.Int(0), len: c.Int(0), cap: c.Int(0), elem: elem, isnil: c.Bool(true)}
}

func (ex *Exec) strConst(s string) Val {
	if ex.opaque {
		return ex.c.mk("strlit", "Str", nil, "s:"+s)
	}
	if ex.bv {
		v := &StrVec{}
		for i := 0; i < len(s); i++ {
			v.b = append(v.b, ex.c.BV(big.NewInt(int64(s[i])), 8))
		}
		return v
	}
	return ex.c.Lit(s)
}

func (ex *Exec) floatConst(f float64) *Term {
	t := ex.c.UF(fmt.Sprintf("flt_%x", f), "Float")
	if ex.floats == nil {
		ex.floats = map[*Term]float64{}
	}
	ex.floats[t] = f
	return t
}

func (ex *Exec) intConst(v *big.Int, t types.Type) *Term {
	b, s, _ := intInfo(t)
	if ex.bv {
		return ex.c.BV(v, b)
	}
	_ = s
	return ex.c.Big(v)
}

func (ex *Exec) constVal(k *ssa.Const) Val {
	t := k.Type()
	if k.Value == nil {
		return ex.zero(t)
	}
	switch {
	case isBool(t):
		return ex.c.Bool(constant.BoolVal(k.Value))
	case isString(t):
		return ex.strConst(constant.StringVal(k.Value))
	case isFloat(t):
		f, _ := constant.Float64Val(k.Value)
		return ex.floatConst(f)
	}
	if _, _, ok := intInfo(t); ok {
		v, _ := new(big.Int).SetString(constant.ToInt(k.Value).ExactString(), 10)
		return ex.intConst(v, t)
	}
	unsup("constant of type %s", t)
	return nil
}

// ---- index conversion (slice headers use Int terms; in bv mode machine ints are BV64)

func (ex *Exec) toIdx(v Val, t types.Type) *Term {
	x := v.(*Term)
	if x.sort == "Int" {
		return x
	}
	if x.isNum() {
		_, s, _ := intInfo(t)
		if s {
			return ex.c.Big(ex.c.sval(x))
		}
		return ex.c.Big(x.num)
	}
	if w := bvw(x.sort); w < 64 {
		if _, s, _ := intInfo(t); s {
			return ex.c.SExt(x, 64)
		}
		return ex.c.ZExt(x, 64)
	}
	return x // symbolic bv index
}

// muxTree selects from a constant table by the bits of the index (bv mode; the
// index is known to be in range).
func (ex *Exec) muxTree(a []Val, i *Term) *Term {
	c := ex.c
	n := 0
	for 1<<uint(n) < len(a) {
		n++
	}
	var build func(lo, bit int) *Term
	build = func(lo, bit int) *Term {
		if lo >= len(a) {
			return nil
		}
		if bit < 0 {
			return a[lo].(*Term)
		}
		l, h := build(lo, bit-1), build(lo+1<<uint(bit), bit-1)
		if h == nil || h == l {
			return l
		}
		return c.Ite(c.Eq(c.Extract(i, bit, bit), c.BV(big.NewInt(1), 1)), h, l)
	}
	return build(0, n-1)
}
func (ex *Exec) fromIdx(t *Term) *Term {
	if !ex.bv {
		return t
	}
	if t.op == "int" {
		return ex.c.BV(t.num, 64)
	}
	if t.op == "ite" && t.sort == "Int" {
		return ex.c.Ite(t.args[0], ex.fromIdx(t.args[1]), ex.fromIdx(t.args[2]))
	}
	unsup("symbolic length in bv mode")
	return nil
}

// ---- memory

func (ex *Exec) load(st *State, p Ptr) Val {
	o := st.heap.get(p.obj)
	if o == nil {
		unsup("load from unknown object %d", p.obj)
	}
	if !ex.arrRefs {
		return ex.get(o.v, p.path)
	}
	v := o.v
	for i := range p.path {
		v = ex.get(v, p.path[i:i+1])
		if r, ok := v.(ArrRef); ok {
			v = st.heap.get(r.obj).v
		}
	}
	return ex.deref(st, v)
}

func (ex *Exec) get(v Val, path []pel) Val {
	for _, e := range path {
		if po, ok := v.(Poison); ok {
			return po
		}
		if e.idx == nil {
			s, ok := v.(*Struct)
			if !ok {
				unsup("field of %T", v)
			}
			v = s.f[e.field]
			continue
		}
		v = ex.index(v, e.idx)
	}
	return v
}

// index reads element i (bounds already established).
func (ex *Exec) index(v Val, i *Term) Val {
	c := ex.c
	switch a := v.(type) {
	case *Term: // Seq
		return c.Nth(a, i)
	case *Array:
		if k, ok := i.constInt(); ok {
			if k < 0 || k >= int64(len(a.e)) {
				return Poison{"index out of range"}
			}
			return a.e[k]
		}
		if len(a.e) == 0 {
			return Poison{"index of empty array"}
		}
		if ex.c.cs != nil && i.sort != "Int" {
			if r := ex.canonIndex(a, i); r != nil {
				return r
			}
		}
		if len(a.e) > 64 {
			if r := ex.tableIndex(a, i); r != nil {
				return r
			}
		}
		r := a.e[len(a.e)-1]
		for k := len(a.e) - 2; k >= 0; k-- {
			r = ex.iteVal(ex.idxEq(i, int64(k)), a.e[k], r)
			if r == nil {
				unsup("symbolic index into unmergeable elements")
			}
		}
		return r
	case *SoA:
		return ex.soaGet(a, i)
	case Poison:
		return a
	}
	unsup("index of %T", v)
	return nil
}

func (ex *Exec) idxEq(i *Term, k int64) *Term {
	if i.sort == "Int" {
		return ex.c.Eq(i, ex.c.Int(k))
	}
	return ex.c.Eq(i, ex.c.BV(big.NewInt(k), bvw(i.sort)))
}

// tableIndex: symbolic index into a large constant table.
func (ex *Exec) tableIndex(a *Array, i *Term) Val {
	c := ex.c
	allStr, allNum := true, true
	for _, x := range a.e {
		t, ok := x.(*Term)
		if !ok {
			return nil
		}
		if t.op != "strlit" && t.op != "lit" {
			allStr = false
		}
		if !t.isNum() {
			allNum = false
		}
	}
	if allStr {
		return ex.strTable(a, i)
	}
	if allNum && i.sort != "Int" {
		return ex.muxTree(a.e, i)
	}
	if allNum {
		name := ex.numTable(a)
		x0 := a.e[0].(*Term)
		t := c.UF(name+"_"+i.sort, x0.sort, i)
		if x0.sort == "Int" {
			for _, x := range a.e {
				t.lo = minB(t.lo, x.(*Term).num)
				t.hi = maxB(t.hi, x.(*Term).num)
			}
			if t.lo == nil {
				t.lo = new(big.Int)
			}
		}
		return t
	}
	return nil
}

func (ex *Exec) numTable(a *Array) string {
	var sb strings.Builder
	for _, x := range a.e {
		sb.WriteString(x.(*Term).num.String())
		sb.WriteByte(',')
	}
	h := hashStr(sb.String())
	name := "tab_" + h
	isort := "Int"
	key := name + "_" + isort
	if _, ok := ex.c.ufs[key]; !ok {
		x0 := a.e[0].(*Term)
		for k, x := range a.e {
			i := ex.c.Int(int64(k))
			ex.c.axioms = append(ex.c.axioms, ex.c.mk("=", "Bool", nil, "", ex.c.UF(key, x0.sort, i), x.(*Term)))
		}
	}
	return name
}

func (ex *Exec) soaGet(a *SoA, i *Term) Val {
	k := 0
	var build func(t types.Type) Val
	build = func(t types.Type) Val {
		if u, ok := t.Underlying().(*types.Struct); ok {
			s := &Struct{t: t}
			for j := 0; j < u.NumFields(); j++ {
				s.f = append(s.f, build(u.Field(j).Type()))
			}
			return s
		}
		x := ex.c.Select(a.leaves[k], i)
		if b, sg, ok := intInfo(t); ok {
			lo, hi := intRange(b, sg)
			if x.op == "select" {
				x.lo, x.hi = maxB(x.lo, lo), minB(x.hi, hi)
			}
		}
		k++
		return x
	}
	return build(a.elem)
}

func flatten(v Val, out *[]*Term) {
	switch x := v.(type) {
	case *Term:
		*out = append(*out, x)
	case *Struct:
		for _, f := range x.f {
			flatten(f, out)
		}
	default:
		unsup("flatten %T", v)
	}
}

func (ex *Exec) soaSet(a *SoA, i *Term, v Val) *SoA {
	var fl []*Term
	flatten(v, &fl)
	n := &SoA{elem: a.elem, n: a.n}
	for k, l := range a.leaves {
		n.leaves = append(n.leaves, ex.c.Store(l, i, fl[k]))
	}
	return n
}

func (ex *Exec) set(v Val, path []pel, x Val) Val {
	if len(path) == 0 {
		return x
	}
	e := path[0]
	if e.idx == nil {
		s, ok := v.(*Struct)
		if !ok {
			unsup("set field of %T", v)
		}
		n := &Struct{t: s.t, f: append([]Val{}, s.f...)}
		n.f[e.field] = ex.set(s.f[e.field], path[1:], x)
		return n
	}
	switch a := v.(type) {
	case *Term:
		return ex.c.Upd(a, e.idx, x.(*Term))
	case *Array:
		if k, ok := e.idx.constInt(); ok {
			if k < 0 || k >= int64(len(a.e)) {
				return a
			}
			n := &Array{elem: a.elem, e: append([]Val{}, a.e...)}
			n.e[k] = ex.set(a.e[k], path[1:], x)
			return n
		}
		n := &Array{elem: a.elem}
		for k := range a.e {
			nv := ex.iteVal(ex.idxEq(e.idx, int64(k)), ex.set(a.e[k], path[1:], x), a.e[k])
			if nv == nil {
				unsup("symbolic store into unmergeable elements")
			}
			n.e = append(n.e, nv)
		}
		return n
	case *SoA:
		old := ex.soaGet(a, e.idx)
		return ex.soaSet(a, e.idx, ex.set(old, path[1:], x))
	}
	unsup("set element of %T", v)
	return nil
}

func (ex *Exec) store(st *State, p Ptr, v Val) {
	o := st.heap.get(p.obj)
	if o == nil {
		unsup("store to unknown object")
	}
	if ex.arrRefs {
		x := o.v
		for i := range p.path {
			if r, ok := x.(ArrRef); ok {
				ex.store(st, Ptr{obj: r.obj, path: p.path[i:]}, v)
				return
			}
			x = ex.get(x, p.path[i:i+1])
		}
		v = ex.keepRefs(st, x, v)
		o = st.heap.get(p.obj)
	}
	st.heap.set(p.obj, &Obj{t: o.t, v: ex.set(o.v, p.path, v), name: o.name, ro: o.ro})
}

// ---- merging of values

func (ex *Exec) iteVal(g *Term, a, b Val) Val {
	c := ex.c
	if g.isTrue() {
		return a
	}
	if g.isFalse() {
		return b
	}
	switch x := a.(type) {
	case *Term:
		if y, ok := b.(*Term); ok {
			if x == y {
				return x
			}
			if x.sort == "Str" {
				if i, j := ex.tabIndices(x, y); i != nil {
					n := x.str
					if x.op != "uf" {
						n = y.str
					}
					return c.UF(n, "Str", c.Ite(g, i, j))
				}
			}
			if x.sort == y.sort {
				return c.Ite(g, x, y)
			}
		}
	case MathInt:
		if y, ok := b.(MathInt); ok {
			return MathInt{c.Ite(g, x.t, y.t)}
		}
	case *Struct:
		if y, ok := b.(*Struct); ok && len(x.f) == len(y.f) {
			if x == y {
				return x
			}
			n := &Struct{t: x.t}
			for i := range x.f {
				v := ex.iteVal(g, x.f[i], y.f[i])
				if v == nil {
					return nil
				}
				n.f = append(n.f, v)
			}
			return n
		}
	case *Array:
		if y, ok := b.(*Array); ok && len(x.e) == len(y.e) {
			if x == y {
				return x
			}
			n := &Array{elem: x.elem}
			for i := range x.e {
				v := ex.iteVal(g, x.e[i], y.e[i])
				if v == nil {
					return nil
				}
				n.e = append(n.e, v)
			}
			return n
		}
	case *SoA:
		if y, ok := b.(*SoA); ok {
			if x == y {
				return x
			}
			if len(x.leaves) == len(y.leaves) {
				n := &SoA{elem: x.elem, n: c.Ite(g, x.n, y.n)}
				for i := range x.leaves {
					n.leaves = append(n.leaves, c.Ite(g, x.leaves[i], y.leaves[i]))
				}
				return n
			}
		}
	case *StrVec:
		if y, ok := b.(*StrVec); ok && len(x.b) == len(y.b) {
			n := &StrVec{}
			for i := range x.b {
				n.b = append(n.b, c.Ite(g, x.b[i], y.b[i]))
			}
			return n
		}
	case Ptr:
		if y, ok := b.(Ptr); ok && x.obj == y.obj && len(x.path) == len(y.path) {
			for i := range x.path {
				if x.path[i] != y.path[i] {
					return nil
				}
			}
			return x
		}
	case Slice:
		if y, ok := b.(Slice); ok {
			if c.cs != nil && (x.off != y.off || x.len != y.len || x.cap != y.cap) {
				return nil // lengths stay constants
			}
			if x.obj == y.obj {
				return Slice{obj: x.obj, off: c.Ite(g, x.off, y.off), len: c.Ite(g, x.len, y.len), cap: c.Ite(g, x.cap, y.cap), elem: x.elem, isnil: c.Ite(g, x.isnil, y.isnil)}
			}
			// a nil slice merges with anything of any object
			if y.obj == 0 {
				return Slice{obj: x.obj, off: c.Ite(g, x.off, c.Int(0)), len: c.Ite(g, x.len, c.Int(0)), cap: c.Ite(g, x.cap, c.Int(0)), elem: x.elem, isnil: c.Ite(g, x.isnil, c.Bool(true))}
			}
			if x.obj == 0 {
				return ex.iteVal(c.Not(g), b, a)
			}
		}
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			return nil
		}
		if x.sym && y.sym {
			return Iface{sym: true, isnil: c.Ite(g, x.isnil, y.isnil), id: c.Ite(g, x.id, y.id)}
		}
		if !x.sym && !y.sym {
			if x.typ == nil && y.typ == nil {
				return x
			}
			if x.typ != nil && y.typ != nil && types.Identical(x.typ, y.typ) {
				v := ex.iteVal(g, x.v, y.v)
				if v != nil {
					return Iface{typ: x.typ, v: v}
				}
			}
			if ex.pure > 0 || ex.inMerge > 0 {
				return Iface{sym: true, isnil: c.Ite(g, c.Bool(x.typ == nil), c.Bool(y.typ == nil)), id: c.Var("ifc", "Int")}
			}
		}
		if x.sym != y.sym {
			xn, yn := x.isnil, y.isnil
			xi, yi := x.id, y.id
			if !x.sym {
				xn = c.Bool(x.typ == nil)
				xi = c.Var("ifc", "Int")
			}
			if !y.sym {
				yn = c.Bool(y.typ == nil)
				yi = c.Var("ifc", "Int")
			}
			return Iface{sym: true, isnil: c.Ite(g, xn, yn), id: c.Ite(g, xi, yi)}
		}
	case Tuple:
		if y, ok := b.(Tuple); ok && len(x) == len(y) {
			var n Tuple
			for i := range x {
				v := ex.iteVal(g, x[i], y[i])
				if v == nil {
					return nil
				}
				n = append(n, v)
			}
			return n
		}
	case Func:
		if y, ok := b.(Func); ok && x.fn == y.fn && len(x.bind) == 0 && len(y.bind) == 0 {
			return x
		}
	case MapV:
		if y, ok := b.(MapV); ok && x == y {
			return x
		}
	case RType:
		if y, ok := b.(RType); ok && types.Identical(x.t, y.t) {
			return x
		}
	case Poison:
		return x
	}
	if _, ok := b.(Poison); ok {
		return b
	}
	return nil
}

func hashStr(s string) string {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return fmt.Sprintf("%x", h)
}

func (ex *Exec) canonIndex(a *Array, i *Term) Val {
	var vs []*big.Int
	srt := ""
	for _, x := range a.e {
		t, ok := x.(*Term)
		if !ok || t.op != "bv" {
			return nil
		}
		vs = append(vs, t.num)
		srt = t.sort
	}
	if r := ex.c.canonTable(vs, bvw(srt), i); r != nil {
		return r
	}
	return nil
}

var debugFalse = os.Getenv("GOVC_FALSE") != ""

// ArrRef stands, inside a struct, for an array field that has been sliced: its
// content lives in an object of its own, shared with the slices.
type ArrRef struct{ obj int }

// deref replaces references by the contents (a value copy).
func (ex *Exec) deref(st *State, v Val) Val {
	switch x := v.(type) {
	case ArrRef:
		return ex.deref(st, st.heap.get(x.obj).v)
	case *Struct:
		var n *Struct
		for i, f := range x.f {
			d := f
			switch f.(type) {
			case ArrRef, *Struct:
				d = ex.deref(st, f)
			}
			if d != f {
				if n == nil {
					n = &Struct{t: x.t, f: append([]Val{}, x.f...)}
				}
				n.f[i] = d
			}
		}
		if n != nil {
			return n
		}
	}
	return v
}

// keepRefs writes v over old: contents of referenced arrays go to their objects.
func (ex *Exec) keepRefs(st *State, old, v Val) Val {
	switch x := old.(type) {
	case ArrRef:
		o := st.heap.get(x.obj)
		st.heap.set(x.obj, &Obj{t: o.t, v: v, name: o.name, ro: o.ro})
		return x
	case *Struct:
		y, ok := v.(*Struct)
		if !ok {
			return v
		}
		var n *Struct
		for i, f := range x.f {
			var d Val
			switch f.(type) {
			case ArrRef, *Struct:
				d = ex.keepRefs(st, f, y.f[i])
			default:
				continue
			}
			if d != y.f[i] {
				if n == nil {
					n = &Struct{t: y.t, f: append([]Val{}, y.f...)}
				}
				n.f[i] = d
			}
		}
		if n != nil {
			return n
		}
	}
	return v
}
