package main

import (
	"go/token"
	"go/types"
	"math"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

func (ex *Exec) binop(st *State, x *ssa.BinOp, a, b Val) []stepRes {
	switch x.Op {
	case token.EQL:
		return one(st, ex.eqVal(st, a, b, x.X.Type()))
	case token.NEQ:
		return one(st, ex.c.Not(ex.eqVal(st, a, b, x.X.Type())))
	}
	if _, ok := a.(Poison); ok {
		unsup("arithmetic on %v", a)
	}
	if _, ok := b.(Poison); ok {
		unsup("arithmetic on %v", b)
	}
	if sv, ok := a.(*StrVec); ok {
		tv := b.(*StrVec)
		if x.Op == token.ADD {
			return one(st, &StrVec{b: append(append([]*Term{}, sv.b...), tv.b...)})
		}
		unsup("string comparison in bv mode")
	}
	s, t := a.(*Term), b.(*Term)
	c := ex.c
	if s.sort == "Seq" {
		switch x.Op {
		case token.ADD:
			return one(st, c.Cat(s, t))
		case token.LSS:
			return one(st, ex.seqLess(s, t))
		case token.GTR:
			return one(st, ex.seqLess(t, s))
		case token.LEQ:
			return one(st, c.Not(ex.seqLess(t, s)))
		case token.GEQ:
			return one(st, c.Not(ex.seqLess(s, t)))
		}
	}
	if s.sort == "Str" {
		switch x.Op {
		case token.LSS:
			return one(st, ex.strLess(s, t))
		case token.GTR:
			return one(st, ex.strLess(t, s))
		case token.LEQ:
			return one(st, c.Not(ex.strLess(t, s)))
		case token.GEQ:
			return one(st, c.Not(ex.strLess(s, t)))
		}
		unsup("operator %s on opaque strings", x.Op)
	}
	if s.sort == "Float" {
		switch x.Op {
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			return one(st, c.UF("f_"+x.Op.String()+"cmp", "Bool", s, t))
		}
		return one(st, c.UF("f"+opName(x.Op), "Float", s, t))
	}
	if ex.bv {
		return ex.binopBV(st, x, s, t)
	}
	return ex.binopInt(st, x, s, t)
}

func opName(t token.Token) string {
	switch t {
	case token.ADD:
		return "add"
	case token.SUB:
		return "sub"
	case token.MUL:
		return "mul"
	case token.QUO:
		return "div"
	}
	return "op"
}

func (ex *Exec) seqLess(a, b *Term) *Term {
	if a.op == "lit" && b.op == "lit" {
		return ex.c.Bool(a.str < b.str)
	}
	t := ex.c.UF("seqlt", "Bool", a, b)
	return t
}

func (ex *Exec) binopInt(st *State, x *ssa.BinOp, s, t *Term) []stepRes {
	c := ex.c
	typ := x.Type()
	switch x.Op {
	case token.LSS:
		return one(st, c.Lt(s, t))
	case token.LEQ:
		return one(st, c.Le(s, t))
	case token.GTR:
		return one(st, c.Lt(t, s))
	case token.GEQ:
		return one(st, c.Le(t, s))
	case token.ADD:
		return one(st, ex.wrap(st, c.Add(s, t), typ))
	case token.SUB:
		return one(st, ex.wrap(st, c.Sub(s, t), typ))
	case token.MUL:
		return one(st, ex.wrap(st, c.Mul(s, t), typ))
	case token.QUO, token.REM:
		if !ex.oblige(st, "divzero", "division by non-zero", x.Pos(), c.Not(c.Eq(t, c.Int(0)))) {
			return nil
		}
		q := ex.quo(st, s, t)
		if x.Op == token.QUO {
			return one(st, ex.wrap(st, q, typ))
		}
		sl, _ := c.Range(s, st.bd)
		tl, _ := c.Range(t, st.bd)
		if sl != nil && sl.Sign() >= 0 && tl != nil && tl.Sign() >= 0 {
			return one(st, c.Mod(s, t))
		}
		return one(st, c.Sub(s, c.Mul(q, t)))
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		return one(st, ex.bitInt(st, x.Op, s, t, typ))
	case token.SHL, token.SHR:
		b, sg, _ := intInfo(typ)
		if _, ts, _ := intInfo(x.Y.Type()); ts {
			if !ex.oblige(st, "shift", "shift count is not negative", x.Pos(), c.Le(c.Int(0), t)) {
				return nil
			}
		}
		k, ok := t.constInt()
		if !ok {
			// ite over the possible counts
			lo, hi := c.Range(t, st.bd)
			if lo == nil || hi == nil || lo.Sign() < 0 || hi.Cmp(big.NewInt(64)) > 0 {
				unsup("shift by unbounded symbolic amount")
			}
			var r *Term
			for n := hi.Int64(); n >= lo.Int64(); n-- {
				v := ex.shiftInt(st, x.Op, s, n, b, sg, typ)
				if r == nil {
					r = v
				} else {
					r = c.Ite(c.Eq(t, c.Int(n)), v, r)
				}
			}
			return one(st, r)
		}
		return one(st, ex.shiftInt(st, x.Op, s, k, b, sg, typ))
	}
	unsup("int binop %s", x.Op)
	return nil
}

func (ex *Exec) shiftInt(st *State, op token.Token, s *Term, k int64, b int, sg bool, typ types.Type) *Term {
	c := ex.c
	if op == token.SHL {
		if k >= int64(b) {
			return c.Int(0)
		}
		return ex.wrap(st, c.Mul(s, c.Big(new(big.Int).Lsh(big.NewInt(1), uint(k)))), typ)
	}
	if k >= int64(b) {
		if sg {
			return c.Ite(c.Lt(s, c.Int(0)), c.Int(-1), c.Int(0))
		}
		return c.Int(0)
	}
	return c.Div(s, c.Big(new(big.Int).Lsh(big.NewInt(1), uint(k)))) // floor = arithmetic shift
}

// quo: Go's truncated division (divisor known non-zero).
func (ex *Exec) quo(st *State, s, t *Term) *Term {
	c := ex.c
	sl, sh := c.Range(s, st.bd)
	tl, th := c.Range(t, st.bd)
	spos := sl != nil && sl.Sign() >= 0
	tpos := tl != nil && tl.Sign() >= 0
	sneg := sh != nil && sh.Sign() <= 0
	tneg := th != nil && th.Sign() <= 0
	neg := c.Neg
	switch {
	case spos: // SMT div: remainder always >= 0; for s>=0 equals truncation
		return c.Div(s, t)
	case sneg && tpos:
		return neg(c.Div(neg(s), t))
	case sneg && tneg:
		return c.Div(neg(s), neg(t))
	}
	return c.Ite(c.Le(c.Int(0), s), c.Div(s, t), neg(c.Div(neg(s), t)))
}

func (ex *Exec) bitInt(st *State, op token.Token, s, t *Term, typ types.Type) *Term {
	c := ex.c
	b, sg, _ := intInfo(typ)
	if s.isNum() && t.isNum() {
		r := new(big.Int)
		switch op {
		case token.AND:
			r.And(s.num, t.num)
		case token.OR:
			r.Or(s.num, t.num)
		case token.XOR:
			r.Xor(s.num, t.num)
		case token.AND_NOT:
			r.AndNot(s.num, t.num)
		}
		return c.Big(r)
	}
	if s.isNum() && op != token.AND_NOT {
		s, t = t, s
	}
	if t.isNum() {
		k := t.num
		if op == token.AND_NOT {
			op = token.AND
			k = new(big.Int).AndNot(mask(b), k)
			if sg && k.Bit(b-1) == 1 {
				k = new(big.Int).Sub(k, new(big.Int).Lsh(big.NewInt(1), uint(b)))
			}
		}
		if op == token.AND {
			if k.Sign() == 0 {
				return c.Int(0)
			}
			if k.Sign() > 0 {
				// runs of ones: sum over runs of ((s div 2^lo) mod 2^len) * 2^lo
				r := c.Int(0)
				i := 0
				for i < k.BitLen() {
					if k.Bit(i) == 0 {
						i++
						continue
					}
					j := i
					for j < k.BitLen() && k.Bit(j) == 1 {
						j++
					}
					lo := new(big.Int).Lsh(big.NewInt(1), uint(i))
					ln := new(big.Int).Lsh(big.NewInt(1), uint(j-i))
					part := c.Mod(c.Div(s, c.Big(lo)), c.Big(ln))
					r = c.Add(r, c.Mul(part, c.Big(lo)))
					i = j
				}
				return r
			}
			// negative mask ...111000: s - s mod 2^n
			n := 0
			for k.Bit(n) == 0 {
				n++
			}
			if new(big.Int).Add(k, new(big.Int).Lsh(big.NewInt(1), uint(n))).Sign() == 0 {
				m := c.Big(new(big.Int).Lsh(big.NewInt(1), uint(n)))
				return c.Sub(s, c.Mod(s, m))
			}
		}
		if op == token.OR && k.Sign() >= 0 {
			// s | k = s + k - (s & k)
			return c.Sub(c.Add(s, t), ex.bitInt(st, token.AND, s, c.Big(k), typ))
		}
		if op == token.XOR && k.Sign() >= 0 {
			return c.Sub(c.Add(s, t), c.Mul(c.Int(2), ex.bitInt(st, token.AND, s, c.Big(k), typ)))
		}
	}
	// x | (y << k) with x < 2^k: addition
	if op == token.OR || op == token.XOR {
		if disjointBits(c, s, t, st.bd) || disjointBits(c, t, s, st.bd) {
			return c.Add(s, t)
		}
	}
	name := map[token.Token]string{token.AND: "bitand", token.OR: "bitor", token.XOR: "bitxor", token.AND_NOT: "bitandnot"}[op]
	r := c.UF(name, "Int", s, t)
	lo, hi := intRange(b, sg)
	r.lo, r.hi = lo, hi
	return r
}

// disjointBits: s is a multiple of 2^k and 0 <= t < 2^k.
func disjointBits(c *Ctx, s, t *Term, bd bounds) bool {
	tl, th := c.Range(t, bd)
	if tl == nil || th == nil || tl.Sign() < 0 {
		return false
	}
	k := th.BitLen()
	m := new(big.Int).Lsh(big.NewInt(1), uint(k))
	sl, _ := c.Range(s, bd)
	if sl == nil || sl.Sign() < 0 {
		return false
	}
	l, kk := lin{}, new(big.Int)
	c.linOf(s, big.NewInt(1), l, kk)
	if new(big.Int).Mod(kk, m).Sign() != 0 {
		return false
	}
	for _, co := range l {
		if new(big.Int).Mod(co, m).Sign() != 0 {
			return false
		}
	}
	return true
}

func (ex *Exec) binopBV(st *State, x *ssa.BinOp, s, t *Term) []stepRes {
	c := ex.c
	_, sg, _ := intInfo(x.X.Type())
	cmp := func(strict bool, a, b *Term) *Term {
		switch {
		case sg && strict:
			return c.BVcmp("bvslt", a, b)
		case sg:
			return c.BVcmp("bvsle", a, b)
		case strict:
			return c.BVcmp("bvult", a, b)
		}
		return c.BVcmp("bvule", a, b)
	}
	switch x.Op {
	case token.LSS:
		return one(st, cmp(true, s, t))
	case token.LEQ:
		return one(st, cmp(false, s, t))
	case token.GTR:
		return one(st, cmp(true, t, s))
	case token.GEQ:
		return one(st, cmp(false, t, s))
	case token.ADD:
		return one(st, c.BVop("bvadd", s, t))
	case token.SUB:
		return one(st, c.BVop("bvsub", s, t))
	case token.MUL:
		return one(st, c.BVop("bvmul", s, t))
	case token.AND:
		return one(st, c.BVop("bvand", s, t))
	case token.OR:
		return one(st, c.BVop("bvor", s, t))
	case token.XOR:
		return one(st, c.BVop("bvxor", s, t))
	case token.AND_NOT:
		return one(st, c.BVop("bvand", s, c.BVnot(t)))
	case token.QUO, token.REM:
		if !ex.oblige(st, "divzero", "division by non-zero", x.Pos(), c.Not(c.Eq(t, c.BV(new(big.Int), bvw(t.sort))))) {
			return nil
		}
		op := "bvudiv"
		if sg {
			op = "bvsdiv"
		}
		if x.Op == token.REM {
			op = "bvurem"
			if sg {
				op = "bvsrem"
			}
		}
		return one(st, c.BVop(op, s, t))
	case token.SHL, token.SHR:
		w := bvw(s.sort)
		tw := bvw(t.sort)
		_, ts, _ := intInfo(x.Y.Type())
		if ts {
			if !ex.oblige(st, "shift", "shift count is not negative", x.Pos(), c.BVcmp("bvsle", c.BV(new(big.Int), tw), t)) {
				return nil
			}
		}
		var k *Term
		if tw <= w {
			k = c.ZExt(t, w)
		} else {
			// saturate
			big1 := c.BVcmp("bvule", c.BV(big.NewInt(int64(w)), tw), t)
			k = c.Ite(big1, c.BV(big.NewInt(int64(w)), w), c.Extract(t, w-1, 0))
		}
		op := "bvshl"
		if x.Op == token.SHR {
			op = "bvlshr"
			if sg {
				op = "bvashr"
			}
		}
		return one(st, c.BVop(op, s, k))
	}
	unsup("bv binop %s", x.Op)
	return nil
}

// ---- equality

func (ex *Exec) eqVal(st *State, a, b Val, t types.Type) *Term {
	c := ex.c
	if _, ok := a.(Poison); ok {
		unsup("comparison of %v", a)
	}
	if _, ok := b.(Poison); ok {
		unsup("comparison with %v", b)
	}
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		if !ok {
			unsup("compare %T with %T", a, b)
		}
		if x.sort == "Float" {
			return c.UF("f_eqcmp", "Bool", x, y)
		}
		if x.sort == "Str" {
			return ex.strEq(x, y)
		}
		return c.Eq(x, y)
	case MathInt:
		return c.Eq(x.t, b.(MathInt).t)
	case *StrVec:
		y := b.(*StrVec)
		if len(x.b) != len(y.b) {
			return c.Bool(false)
		}
		var cs []*Term
		for i := range x.b {
			cs = append(cs, c.Eq(x.b[i], y.b[i]))
		}
		return c.And(cs...)
	case *Struct:
		y := b.(*Struct)
		var cs []*Term
		ut := x.t.Underlying().(*types.Struct)
		for i := range x.f {
			cs = append(cs, ex.eqVal(st, x.f[i], y.f[i], ut.Field(i).Type()))
		}
		return c.And(cs...)
	case *Array:
		y := b.(*Array)
		var cs []*Term
		for i := range x.e {
			cs = append(cs, ex.eqVal(st, x.e[i], y.e[i], x.elem))
		}
		return c.And(cs...)
	case Ptr:
		y, ok := b.(Ptr)
		if !ok {
			unsup("compare pointer with %T", b)
		}
		if x.obj != y.obj || len(x.path) != len(y.path) {
			return c.Bool(false)
		}
		for i := range x.path {
			if x.path[i] != y.path[i] {
				return c.Bool(false)
			}
		}
		return c.Bool(true)
	case Slice: // only nil comparison
		if y, ok := b.(Slice); ok {
			if y.obj == 0 && y.isnil.isTrue() {
				return x.isnil
			}
			return y.isnil
		}
	case MapV:
		y := b.(MapV)
		return c.Bool(x.obj == y.obj)
	case Func:
		y := b.(Func)
		if y.nilf {
			return c.Bool(x.nilf)
		}
		return c.Bool(y.nilf == x.nilf)
	case RType:
		return c.Bool(types.Identical(x.t, b.(RType).t))
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			// comparison of interface with concrete value
			y = Iface{typ: t, v: b}
		}
		if !y.sym && y.typ == nil {
			if x.sym {
				return x.isnil
			}
			return c.Bool(x.typ == nil)
		}
		if !x.sym && x.typ == nil {
			return ex.eqVal(st, b, a, t)
		}
		if x.sym || y.sym {
			if x.sym && y.sym {
				return c.Or(c.And(x.isnil, y.isnil), c.And(c.Not(x.isnil), c.Not(y.isnil), c.Eq(x.id, y.id)))
			}
			s := x
			if y.sym {
				s = y
			}
			return c.And(c.Not(s.isnil), c.Var("ifaceeq", "Bool"))
		}
		if !types.Identical(x.typ, y.typ) {
			return c.Bool(false)
		}
		return ex.eqVal(st, x.v, y.v, x.typ)
	}
	unsup("equality on %T", a)
	return nil
}

// ---- conversions

func (ex *Exec) convert(st *State, v Val, from, to types.Type) Val {
	c := ex.c
	if _, ok := v.(Poison); ok {
		return v
	}
	fb, fs, fi := intInfo(from)
	tb, ts, ti := intInfo(to)
	switch {
	case fi && ti:
		t := v.(*Term)
		if ex.bv {
			if fs {
				return c.SExt(t, tb)
			}
			return c.ZExt(t, tb)
		}
		_ = fb
		_ = ts
		return ex.wrap(st, t, to)
	case fi && isFloat(to):
		t := v.(*Term)
		if t.op == "int" {
			f, _ := new(big.Float).SetInt(t.num).Float64()
			return ex.floatConst(f)
		}
		return c.UF("i2f_"+t.sort, "Float", t)
	case isFloat(from) && ti:
		t := v.(*Term)
		if f, ok := ex.floatVal(v); ok && math.Abs(f) < 1<<31 && !ex.bv && (ts || f >= 0) {
			return ex.wrap(st, c.Int(int64(f)), to)
		}
		if ex.bv {
			return c.UF("f2i_"+bvs(tb), bvs(tb), t)
		}
		r := c.UF("f2i"+to.Underlying().String(), "Int", t)
		r.lo, r.hi = intRange(tb, ts)
		return r
	case isFloat(from) && isFloat(to):
		return v
	case isString(to) && fi: // string(rune)
		t := v.(*Term)
		if k, ok := t.constInt(); ok && !ex.bv && !ex.opaque {
			return c.Lit(string(rune(k)))
		}
		if ex.bv && !ex.opaque {
			if fb == 8 || (t.op == "concat" && len(t.args) == 2 && t.args[0].isNum() && bvw(t.args[1].sort) == 8) {
				b := t
				if fb != 8 {
					b = t.args[1]
				}
				ex.note("string(byte) assumed ASCII")
				return &StrVec{b: []*Term{b}}
			}
		}
		if !ex.opaque && !ex.bv {
			lo, hi := c.Range(t, st.bd)
			if lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(big.NewInt(128)) < 0 {
				return c.Unit(t)
			}
			r := c.UF("runestr", "Seq", t)
			l := c.mk("len", "Int", nil, "", r)
			c.Fact(r, c.And(c.mk("<=", "Bool", nil, "", c.Int(1), l), c.mk("<=", "Bool", nil, "", l, c.Int(4))))
			asc := c.And(c.Le(c.Int(0), t), c.Lt(t, c.Int(128)))
			return c.Ite(asc, c.Unit(t), r)
		}
		unsup("string(rune)")
	case isString(to) && isString(from):
		return v
	case isString(to): // []byte -> string
		s, ok := v.(Slice)
		if !ok {
			unsup("string of %T", v)
		}
		if !isByte(s.elem) {
			unsup("string([]rune)")
		}
		return ex.sliceToString(st, s)
	case isString(from): // string -> []byte
		et := to.Underlying().(*types.Slice).Elem()
		if !isByte(et) {
			unsup("[]rune(string)")
		}
		switch s := v.(type) {
		case *Term:
			if s.sort == "Str" {
				unsup("[]byte of opaque string")
			}
			sl := ex.newBytes(st, s, "bytes")
			sl.elem = et
			return sl
		case *StrVec:
			a := &Array{elem: et}
			for _, b := range s.b {
				a.e = append(a.e, b)
			}
			n := c.Int(int64(len(s.b)))
			return Slice{obj: ex.newObj(st, nil, a, "bytes"), off: c.Int(0), len: n, cap: n, elem: et, isnil: c.Bool(false)}
		}
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		return ex.retype(v, to)
	}
	if p, ok := v.(Ptr); ok {
		return p
	}
	unsup("conversion %s -> %s", from, to)
	return nil
}

func (ex *Exec) sliceToString(st *State, s Slice) Val {
	if ex.bv {
		b := &StrVec{}
		if s.obj == 0 {
			return b
		}
		a := st.heap.get(s.obj).v.(*Array)
		o, _ := s.off.constInt()
		n, ok := s.len.constInt()
		if !ok {
			unsup("symbolic length in bv mode")
		}
		for i := int64(0); i < n; i++ {
			b.b = append(b.b, a.e[o+i].(*Term))
		}
		return b
	}
	return ex.bytesOf(st, s)
}

// ---- opaque strings: totally ordered uninterpreted sort

func (ex *Exec) strEq(a, b *Term) *Term {
	c := ex.c
	if a == b {
		return c.Bool(true)
	}
	if a.op == "strlit" && b.op == "strlit" {
		return c.Bool(a.str == b.str)
	}
	if x, y := ex.tabIndices(a, b); x != nil {
		return c.Eq(x, y)
	}
	// both from the same duplicate-free table
	if a.op == "uf" && b.op == "uf" && a.str == b.str {
		if ct := ex.tabByName(a.str); ct != nil {
			return c.Eq(a.args[0], b.args[0])
		}
	}
	return c.Eq(a, b)
}

var strTabs = map[string]*constTable{}

func (ex *Exec) tabByName(n string) *constTable { return ex.e.getStrTab(n) }

// strTable: symbolic index into a constant table of strings (opaque mode).
func (ex *Exec) strTable(a *Array, i *Term) Val {
	c := ex.c
	ct := &constTable{}
	key := ""
	for _, x := range a.e {
		s := x.(*Term).str
		if x.(*Term).op == "strlit" {
			s = s[2:]
		}
		ct.elems = append(ct.elems, s)
		key += s + "\x00"
	}
	if isBV(i.sort) {
		if w := bvw(i.sort); w < 64 {
			i = c.Concat(c.BV(big.NewInt(0), 64-w), i)
		}
	}
	name := "stab_" + hashStr(key) + "_" + i.sort
	seen := map[string]bool{}
	sorted := true
	for k, s := range ct.elems {
		if seen[s] {
			unsup("table of strings has duplicates")
		}
		seen[s] = true
		if k > 0 && ct.elems[k-1] >= s {
			sorted = false
		}
	}
	if !ex.opaque {
		unsup("symbolic index into a string table needs //govc:opaque")
	}
	ct.sorted = sorted
	ex.e.putStrTab(name, ct)
	t := c.UF(name, "Str", i)
	if sorted && !ex.bv && !ex.notes["sorted "+name] {
		ex.notes["sorted "+name] = true
		x, y := c.BoundVar("ti", "Int"), c.BoundVar("tj", "Int")
		n := c.Int(int64(len(ct.elems)))
		body := c.Implies(c.And(c.Le(c.Int(0), x), c.Lt(x, y), c.Lt(y, n)), ex.strLess(c.UF(name, "Str", x), c.UF(name, "Str", y)))
		c.axioms = append(c.axioms, c.mk("forall", "Bool", nil, "", x, y, body))
	}
	return t
}

// tabIndices: the positions of two elements of one sorted duplicate-free
// table (bit-vector indices, within the table by their bounds checks).
func (ex *Exec) tabIndices(a, b *Term) (*Term, *Term) {
	c := ex.c
	if a.op != "uf" {
		y, x := ex.tabIndices2(b, a)
		return x, y
	}
	if b.op == "uf" && a.str != b.str {
		return nil, nil
	}
	if x, y := ex.tabIndices2(a, b); x != nil {
		return x, y
	}
	_ = c
	return nil, nil
}

func (ex *Exec) tabIndices2(a, b *Term) (*Term, *Term) {
	if a.op != "uf" || len(a.args) != 1 || !isBV(a.args[0].sort) && a.args[0].sort != "Int" {
		return nil, nil
	}
	ct := ex.tabByName(a.str)
	if ct == nil || !ct.sorted {
		return nil, nil
	}
	if b.op == "uf" {
		if b.str == a.str {
			return a.args[0], b.args[0]
		}
		return nil, nil
	}
	if s, ok := strOf(b); ok {
		for k, e := range ct.elems {
			if e == s {
				if a.args[0].sort == "Int" {
					return a.args[0], ex.c.Int(int64(k))
				}
				return a.args[0], ex.c.BV(big.NewInt(int64(k)), 64)
			}
		}
	}
	return nil, nil
}

// strLess: strict total order on opaque strings.
func (ex *Exec) strLess(a, b *Term) *Term {
	c := ex.c
	if a == b {
		return c.Bool(false)
	}
	if a.op == "strlit" && b.op == "strlit" {
		return c.Bool(a.str < b.str)
	}
	if x, y := ex.tabIndices(a, b); x != nil {
		if x.sort == "Int" {
			return c.Lt(x, y)
		}
		return c.BVcmp("bvult", x, y)
	}
	t := c.UF("strlt", "Bool", a, b)
	if !ex.notes["strlt axioms"] {
		ex.notes["strlt axioms"] = true
		x, y, z := c.BoundVar("sx", "Str"), c.BoundVar("sy", "Str"), c.BoundVar("sz", "Str")
		lt := func(p, q *Term) *Term { return c.UF("strlt", "Bool", p, q) }
		c.axioms = append(c.axioms,
			c.mk("forall", "Bool", nil, "", x, c.Not(lt(x, x))),
			c.mk("forall", "Bool", nil, "", x, y, z, c.Or(c.Not(lt(x, y)), c.Not(lt(y, z)), lt(x, z))),
			c.mk("forall", "Bool", nil, "", x, y, c.Or(lt(x, y), c.mk("=", "Bool", nil, "", x, y), lt(y, x))))
	}
	return t
}
