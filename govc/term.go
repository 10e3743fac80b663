package main

// Terms: hash-consed SMT terms with a rewriting constructor layer.
// Sorts: "Bool", "Int", "BVn" (bit-vectors), "Seq" (sequence of byte values,
// SMT (Seq Int)), "Arr" (Int -> Int), any other name: an uninterpreted sort.

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

type Term struct {
	id       int
	op       string
	args     []*Term
	sort     string
	num      *big.Int // int / bv constants
	str      string   // sequence literals (raw bytes), variable and function names
	lo       *big.Int // declared bounds for Int-sorted vars and function results
	hi       *big.Int
	hasBound bool // contains a bound (quantified) variable
}

type Ctx struct {
	tab      map[string]*Term
	all      []*Term
	nvar     int
	ufs      map[string]ufDecl
	sorts    map[string]bool
	axioms   []*Term           // global facts, conjoined with every query that mentions their symbols
	facts    map[*Term][]*Term // facts attached to a term: added whenever the term occurs in a query
	arrDom   map[string][2]*big.Int
	b32alpha map[string]string
	cs       *canonState
}

type ufDecl struct {
	args []string
	ret  string
}

func newCtx() *Ctx {
	return &Ctx{tab: map[string]*Term{}, ufs: map[string]ufDecl{}, sorts: map[string]bool{}, facts: map[*Term][]*Term{}, arrDom: map[string][2]*big.Int{}, b32alpha: map[string]string{}}
}

func (c *Ctx) mk(op, srt string, num *big.Int, str string, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(srt)
	if num != nil {
		sb.WriteByte('#')
		sb.WriteString(num.String())
	}
	if str != "" || op == "lit" {
		sb.WriteByte('$')
		sb.WriteString(str)
	}
	for _, a := range args {
		sb.WriteByte(',')
		sb.WriteString(strconv.Itoa(a.id))
	}
	k := sb.String()
	if t, ok := c.tab[k]; ok {
		return t
	}
	t := &Term{id: len(c.all), op: op, sort: srt, num: num, str: str, args: args}
	for _, a := range args {
		if a.hasBound {
			t.hasBound = true
		}
	}
	c.all = append(c.all, t)
	c.tab[k] = t
	return t
}

func isBV(s string) bool { return strings.HasPrefix(s, "BV") }
func bvw(s string) int   { n, _ := strconv.Atoi(s[2:]); return n }
func bvs(n int) string   { return "BV" + strconv.Itoa(n) }

// ---- constants and variables

func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.mk("true", "Bool", nil, "")
	}
	return c.mk("false", "Bool", nil, "")
}
func (c *Ctx) Big(v *big.Int) *Term { return c.mk("int", "Int", v, "") }
func (c *Ctx) Int(v int64) *Term    { return c.Big(big.NewInt(v)) }
func (c *Ctx) BV(v *big.Int, w int) *Term {
	m := new(big.Int).Lsh(big.NewInt(1), uint(w))
	x := new(big.Int).Mod(v, m)
	return c.mk("bv", bvs(w), x, "")
}
func (c *Ctx) Lit(s string) *Term { return c.mk("lit", "Seq", nil, s) }

func (c *Ctx) Var(name, srt string) *Term {
	c.nvar++
	return c.mk("var", srt, nil, fmt.Sprintf("%s!%d", sanitize(name), c.nvar))
}
func (c *Ctx) NamedVar(name, srt string) *Term { return c.mk("var", srt, nil, sanitize(name)) }
func (c *Ctx) VarRange(name string, lo, hi *big.Int) *Term {
	t := c.Var(name, "Int")
	t.lo, t.hi = lo, hi
	return t
}
func (c *Ctx) BoundVar(name, srt string) *Term {
	t := c.Var(name, srt)
	t.hasBound = true
	return t
}

func sanitize(s string) string {
	var b strings.Builder
	for _, r := range s {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '.' || r == '!' {
			b.WriteRune(r)
		} else {
			b.WriteByte('_')
		}
	}
	if b.Len() == 0 || (b.String()[0] >= '0' && b.String()[0] <= '9') {
		return "v" + b.String()
	}
	return b.String()
}

// UF applies an uninterpreted function.
func (c *Ctx) UF(name, ret string, args ...*Term) *Term {
	name = sanitize(name)
	d := ufDecl{ret: ret}
	for _, a := range args {
		d.args = append(d.args, a.sort)
	}
	if old, ok := c.ufs[name]; ok {
		if fmt.Sprint(old) != fmt.Sprint(d) {
			panic("uf redeclared: " + name + fmt.Sprint(old, d))
		}
	}
	c.ufs[name] = d
	if len(args) == 0 {
		return c.mk("var", ret, nil, name)
	}
	return c.mk("uf", ret, nil, name, args...)
}

// Fact attaches a fact to a term; it is asserted in every query where t occurs.
func (c *Ctx) Fact(t *Term, f *Term) {
	if f.op == "true" {
		return
	}
	for _, g := range c.facts[t] {
		if g == f {
			return
		}
	}
	c.facts[t] = append(c.facts[t], f)
}

func (t *Term) isTrue() bool  { return t.op == "true" }
func (t *Term) isFalse() bool { return t.op == "false" }
func (t *Term) isNum() bool   { return t.op == "int" || t.op == "bv" }
func (t *Term) constInt() (int64, bool) {
	if t.op == "int" && t.num.IsInt64() {
		return t.num.Int64(), true
	}
	if t.op == "bv" && t.num.IsInt64() {
		return t.num.Int64(), true
	}
	return 0, false
}

// ---- booleans

func (c *Ctx) Not(a *Term) *Term {
	switch a.op {
	case "true":
		return c.Bool(false)
	case "false":
		return c.Bool(true)
	case "not":
		return a.args[0]
	case "<=": // not (a<=b)  ->  b+1<=a  (Int)
		return c.Le(c.Add(a.args[1], c.Int(1)), a.args[0])
	}
	return c.mk("not", "Bool", nil, "", a)
}

func (c *Ctx) And(ts ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t.isTrue() {
			return true
		}
		if t.isFalse() {
			return false
		}
		if t.op == "and" {
			for _, a := range t.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if seen[t] {
			return true
		}
		if seen[c.Not(t)] {
			return false
		}
		seen[t] = true
		out = append(out, t)
		return true
	}
	for _, t := range ts {
		if !add(t) {
			return c.Bool(false)
		}
	}
	switch len(out) {
	case 0:
		return c.Bool(true)
	case 1:
		return out[0]
	}
	return c.mk("and", "Bool", nil, "", out...)
}

func (c *Ctx) Or(ts ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, t := range ts {
		if t.isFalse() {
			continue
		}
		if t.isTrue() {
			return t
		}
		var l []*Term
		if t.op == "or" {
			l = t.args
		} else {
			l = []*Term{t}
		}
		for _, a := range l {
			if seen[a] {
				continue
			}
			if seen[c.Not(a)] {
				return c.Bool(true)
			}
			seen[a] = true
			out = append(out, a)
		}
	}
	switch len(out) {
	case 0:
		return c.Bool(false)
	case 1:
		return out[0]
	}
	return c.mk("or", "Bool", nil, "", out...)
}

func (c *Ctx) Implies(a, b *Term) *Term { return c.Or(c.Not(a), b) }

func (c *Ctx) ite0(g, a, b *Term) *Term {
	if g.isTrue() || a == b {
		return a
	}
	if g.isFalse() {
		return b
	}
	if g.op == "not" {
		return c.Ite(g.args[0], b, a)
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("ite sorts %s %s", a.sort, b.sort))
	}
	if a.sort == "Bool" {
		if a.isTrue() {
			return c.Or(g, b)
		}
		if a.isFalse() {
			return c.And(c.Not(g), b)
		}
		if b.isTrue() {
			return c.Or(c.Not(g), a)
		}
		if b.isFalse() {
			return c.And(g, a)
		}
	}
	if a.op == "ite" && a.args[0] == g {
		a = a.args[1]
	}
	if b.op == "ite" && b.args[0] == g {
		b = b.args[2]
	}
	if a == b {
		return a
	}
	return c.mk("ite", a.sort, nil, "", g, a, b)
}

func (c *Ctx) eq0(a, b *Term) *Term {
	if a == b {
		return c.Bool(true)
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("eq sorts %s(%s) %s(%s)", a.sort, c.Str(a), b.sort, c.Str(b)))
	}
	if a.sort == "Bool" {
		if a.isTrue() {
			return b
		}
		if b.isTrue() {
			return a
		}
		if a.isFalse() {
			return c.Not(b)
		}
		if b.isFalse() {
			return c.Not(a)
		}
	}
	if a.isNum() && b.isNum() {
		return c.Bool(a.num.Cmp(b.num) == 0)
	}
	if a.op == "lit" && b.op == "lit" {
		return c.Bool(a.str == b.str)
	}
	if a.sort == "Int" {
		l, k := c.linDiff(a, b)
		if len(l) == 0 {
			return c.Bool(k.Sign() == 0)
		}
		lo, hi := c.rangeLin(l, k, nil)
		if (lo != nil && lo.Sign() > 0) || (hi != nil && hi.Sign() < 0) {
			return c.Bool(false)
		}
		// ite lifting against constants
		if b.isNum() && a.op == "ite" && a.args[1].isNum() && a.args[2].isNum() {
			return c.Ite(a.args[0], c.Eq(a.args[1], b), c.Eq(a.args[2], b))
		}
		if a.isNum() && b.op == "ite" {
			return c.Eq(b, a)
		}
	}
	if isBV(a.sort) {
		if b.isNum() && a.op == "ite" && (a.args[1].isNum() || a.args[2].isNum()) {
			return c.Ite(a.args[0], c.Eq(a.args[1], b), c.Eq(a.args[2], b))
		}
		if a.isNum() && b.op == "ite" {
			return c.Eq(b, a)
		}
		if b.isNum() && a.op == "concat" {
			return c.eqConcat(a, b)
		}
		if a.isNum() && b.op == "concat" {
			return c.eqConcat(b, a)
		}
	}
	if a.sort == "Seq" {
		if r := c.seqEq(a, b); r != nil {
			return r
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk("=", "Bool", nil, "", a, b)
}

func (c *Ctx) eqConcat(a, k *Term) *Term {
	w := bvw(a.sort)
	pos := w
	var cs []*Term
	for _, p := range a.args {
		pw := bvw(p.sort)
		pos -= pw
		cs = append(cs, c.Eq(p, c.Extract(k, pos+pw-1, pos)))
	}
	return c.And(cs...)
}

// ---- linear integer arithmetic

type lin map[*Term]*big.Int

func (c *Ctx) linOf(t *Term, mul *big.Int, l lin, k *big.Int) {
	switch t.op {
	case "int":
		k.Add(k, new(big.Int).Mul(mul, t.num))
	case "+":
		for _, a := range t.args {
			c.linOf(a, mul, l, k)
		}
	case "*":
		if len(t.args) == 2 && t.args[0].op == "int" {
			c.linOf(t.args[1], new(big.Int).Mul(mul, t.args[0].num), l, k)
			return
		}
		fallthrough
	default:
		if o, ok := l[t]; ok {
			n := new(big.Int).Add(o, mul)
			if n.Sign() == 0 {
				delete(l, t)
			} else {
				l[t] = n
			}
		} else if mul.Sign() != 0 {
			l[t] = mul
		}
	}
}

func (c *Ctx) linDiff(a, b *Term) (lin, *big.Int) {
	l, k := lin{}, new(big.Int)
	c.linOf(a, big.NewInt(1), l, k)
	c.linOf(b, big.NewInt(-1), l, k)
	return l, k
}

func (c *Ctx) fromLin(l lin, k *big.Int) *Term {
	ts := make([]*Term, 0, len(l))
	for t := range l {
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	var out []*Term
	for _, t := range ts {
		m := l[t]
		if m.Sign() == 0 {
			continue
		}
		if m.IsInt64() && m.Int64() == 1 {
			out = append(out, t)
		} else {
			out = append(out, c.mk("*", "Int", nil, "", c.Big(m), t))
		}
	}
	if k.Sign() != 0 || len(out) == 0 {
		out = append(out, c.Big(k))
	}
	if len(out) == 1 {
		return out[0]
	}
	return c.mk("+", "Int", nil, "", out...)
}

func (c *Ctx) Add(ts ...*Term) *Term {
	l, k := lin{}, new(big.Int)
	for _, t := range ts {
		c.linOf(t, big.NewInt(1), l, k)
	}
	return c.fromLin(l, k)
}
func (c *Ctx) Sub(a, b *Term) *Term {
	l, k := c.linDiff(a, b)
	return c.fromLin(l, k)
}
func (c *Ctx) Neg(a *Term) *Term { return c.Sub(c.Int(0), a) }

func (c *Ctx) Mul(a, b *Term) *Term {
	if b.op == "int" {
		a, b = b, a
	}
	if a.op == "int" {
		l, k := lin{}, new(big.Int)
		c.linOf(b, a.num, l, k)
		return c.fromLin(l, k)
	}
	if a.op == "ite" && a.args[1].isNum() && a.args[2].isNum() {
		return c.Ite(a.args[0], c.Mul(a.args[1], b), c.Mul(a.args[2], b))
	}
	if b.op == "ite" && b.args[1].isNum() && b.args[2].isNum() {
		return c.Ite(b.args[0], c.Mul(a, b.args[1]), c.Mul(a, b.args[2]))
	}
	// pull constant factors out
	if a.op == "*" && a.args[0].isNum() {
		return c.Mul(a.args[0], c.Mul(a.args[1], b))
	}
	if b.op == "*" && b.args[0].isNum() {
		return c.Mul(b.args[0], c.Mul(a, b.args[1]))
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk("*", "Int", nil, "", a, b)
}

// Div is SMT-LIB (Euclidean) division.
func (c *Ctx) Div(a, b *Term) *Term {
	if b.op == "int" && b.num.Sign() > 0 {
		if b.num.Cmp(big.NewInt(1)) == 0 {
			return a
		}
		if a.op == "int" {
			q, m := new(big.Int), new(big.Int)
			q.DivMod(a.num, b.num, m)
			return c.Big(q)
		}
		lo, hi := c.Range(a, nil)
		if lo != nil && lo.Sign() >= 0 && hi != nil && hi.Cmp(b.num) < 0 {
			return c.Int(0)
		}
		// split multiples
		if a.op == "+" || a.op == "*" {
			l, k := lin{}, new(big.Int)
			c.linOf(a, big.NewInt(1), l, k)
			q, r := lin{}, lin{}
			for t, m := range l {
				if new(big.Int).Mod(m, b.num).Sign() == 0 {
					q[t] = new(big.Int).Div(m, b.num)
				} else {
					r[t] = m
				}
			}
			kq, kr := new(big.Int), new(big.Int)
			kq.DivMod(k, b.num, kr)
			if len(q) > 0 || kq.Sign() != 0 {
				return c.Add(c.fromLin(q, kq), c.Div(c.fromLin(r, kr), b))
			}
		}
		if a.op == "div" && a.args[1].isNum() {
			return c.Div(a.args[0], c.Big(new(big.Int).Mul(a.args[1].num, b.num)))
		}
	}
	return c.mk("div", "Int", nil, "", a, b)
}

// Mod is SMT-LIB (Euclidean) modulus.
func (c *Ctx) Mod(a, b *Term) *Term {
	if b.op == "int" && b.num.Sign() > 0 {
		if b.num.Cmp(big.NewInt(1)) == 0 {
			return c.Int(0)
		}
		if a.op == "int" {
			return c.Big(new(big.Int).Mod(a.num, b.num))
		}
		lo, hi := c.Range(a, nil)
		if lo != nil && lo.Sign() >= 0 && hi != nil && hi.Cmp(b.num) < 0 {
			return a
		}
		if a.op == "+" || a.op == "*" || a.op == "mod" {
			l, k := lin{}, new(big.Int)
			c.linOf(a, big.NewInt(1), l, k)
			r := lin{}
			ch := false
			kk := new(big.Int).Set(k)
			for t, m := range l {
				mm := new(big.Int).Mod(m, b.num)
				if mm.Cmp(m) != 0 {
					ch = true
				}
				if mm.Sign() == 0 {
					continue
				}
				if t.op == "mod" && t.args[1].isNum() && new(big.Int).Mod(t.args[1].num, b.num).Sign() == 0 {
					ch = true
					l2, k2 := lin{}, new(big.Int)
					c.linOf(t.args[0], mm, l2, k2)
					kk.Add(kk, k2)
					for u, v := range l2 {
						if o, ok := r[u]; ok {
							r[u] = new(big.Int).Add(o, v)
						} else {
							r[u] = v
						}
					}
					continue
				}
				if o, ok := r[t]; ok {
					r[t] = new(big.Int).Add(o, mm)
				} else {
					r[t] = mm
				}
			}
			kr := new(big.Int).Mod(kk, b.num)
			if kr.Cmp(k) != 0 {
				ch = true
			}
			if ch {
				for t, m := range r {
					if m.Sign() == 0 {
						delete(r, t)
					}
				}
				return c.Mod(c.fromLin(r, kr), b)
			}
		}
	}
	return c.mk("mod", "Int", nil, "", a, b)
}

func (c *Ctx) Le(a, b *Term) *Term {
	l, k := c.linDiff(a, b) // a-b <= 0
	if len(l) == 0 {
		return c.Bool(k.Sign() <= 0)
	}
	lo, hi := c.rangeLin(l, k, nil)
	if hi != nil && hi.Sign() <= 0 {
		return c.Bool(true)
	}
	if lo != nil && lo.Sign() > 0 {
		return c.Bool(false)
	}
	// canonical: divide by gcd, positive side/negative side
	g := new(big.Int)
	for _, m := range l {
		g.GCD(nil, nil, g, new(big.Int).Abs(m))
	}
	if g.Cmp(big.NewInt(1)) > 0 {
		n := lin{}
		for t, m := range l {
			n[t] = new(big.Int).Quo(m, g)
		}
		// sum*g + k <= 0  ->  sum <= floor(-k/g) -> sum - floor(-k/g) <= 0
		nk := new(big.Int).Neg(k)
		fk := new(big.Int)
		fk.DivMod(nk, g, new(big.Int))
		l, k = n, new(big.Int).Neg(fk)
	}
	// move negatives to right
	L, R := lin{}, lin{}
	for t, m := range l {
		if m.Sign() > 0 {
			L[t] = m
		} else {
			R[t] = new(big.Int).Neg(m)
		}
	}
	kl, kr := new(big.Int), new(big.Int)
	if k.Sign() > 0 && len(L) > 0 {
		kl = k
	} else if k.Sign() > 0 {
		kl = k
	} else {
		kr = new(big.Int).Neg(k)
	}
	return c.mk("<=", "Bool", nil, "", c.fromLin(L, kl), c.fromLin(R, kr))
}
func (c *Ctx) Lt(a, b *Term) *Term { return c.Le(c.Add(a, c.Int(1)), b) }
func (c *Ctx) Ge(a, b *Term) *Term { return c.Le(b, a) }
func (c *Ctx) Gt(a, b *Term) *Term { return c.Lt(b, a) }

// Range computes a (conservative) interval for an Int term.
type bounds map[*Term][2]*big.Int

func (c *Ctx) Range(t *Term, bd bounds) (lo, hi *big.Int) { return c.rangeD(t, bd, 12) }

func maxB(a, b *big.Int) *big.Int {
	if a == nil {
		return b
	}
	if b == nil {
		return a
	}
	if a.Cmp(b) >= 0 {
		return a
	}
	return b
}
func minB(a, b *big.Int) *big.Int {
	if a == nil {
		return b
	}
	if b == nil {
		return a
	}
	if a.Cmp(b) <= 0 {
		return a
	}
	return b
}

var maxLen = big.NewInt(1 << 40) // assumed bound on slice and string lengths

func (c *Ctx) rangeD(t *Term, bd bounds, d int) (lo, hi *big.Int) {
	if t.op == "int" {
		return t.num, t.num
	}
	if d == 0 {
		return t.lo, t.hi
	}
	switch t.op {
	case "+":
		l, k := lin{}, new(big.Int)
		c.linOf(t, big.NewInt(1), l, k)
		lo, hi = c.rangeLinD(l, k, bd, d-1)
	case "*":
		alo, ahi := c.rangeD(t.args[0], bd, d-1)
		blo, bhi := c.rangeD(t.args[1], bd, d-1)
		if alo != nil && ahi != nil && blo != nil && bhi != nil {
			for _, x := range []*big.Int{alo, ahi} {
				for _, y := range []*big.Int{blo, bhi} {
					p := new(big.Int).Mul(x, y)
					lo = minB(lo, p)
					hi = maxB(hi, p)
				}
			}
		} else if alo != nil && blo != nil && alo.Sign() >= 0 && blo.Sign() >= 0 {
			lo = new(big.Int).Mul(alo, blo)
		}
	case "ite":
		alo, ahi := c.rangeD(t.args[1], bd, d-1)
		blo, bhi := c.rangeD(t.args[2], bd, d-1)
		if alo != nil && blo != nil {
			lo = minB(alo, blo)
		}
		if ahi != nil && bhi != nil {
			hi = maxB(ahi, bhi)
		}
	case "mod":
		if t.args[1].isNum() && t.args[1].num.Sign() > 0 {
			lo = new(big.Int)
			hi = new(big.Int).Sub(t.args[1].num, big.NewInt(1))
			alo, ahi := c.rangeD(t.args[0], bd, d-1)
			if alo != nil && alo.Sign() >= 0 && ahi != nil {
				hi = minB(hi, ahi)
			}
		} else {
			blo, bhi := c.rangeD(t.args[1], bd, d-1)
			if blo != nil && blo.Sign() > 0 {
				lo = new(big.Int)
				if bhi != nil {
					hi = new(big.Int).Sub(bhi, big.NewInt(1))
				}
			}
		}
	case "div":
		alo, ahi := c.rangeD(t.args[0], bd, d-1)
		if t.args[1].isNum() && t.args[1].num.Sign() > 0 {
			if alo != nil {
				lo = new(big.Int)
				lo.DivMod(alo, t.args[1].num, new(big.Int))
			}
			if ahi != nil {
				hi = new(big.Int)
				hi.DivMod(ahi, t.args[1].num, new(big.Int))
			}
		} else {
			blo, _ := c.rangeD(t.args[1], bd, d-1)
			if blo != nil && blo.Sign() > 0 && alo != nil && alo.Sign() >= 0 {
				lo = new(big.Int)
				hi = ahi
			}
		}
	case "len":
		lo = new(big.Int)
		hi = maxLen
	case "nth":
		lo, hi = new(big.Int), big.NewInt(255)
	case "bv2nat":
		lo = new(big.Int)
		hi = new(big.Int).Lsh(big.NewInt(1), uint(bvw(t.args[0].sort)))
		hi.Sub(hi, big.NewInt(1))
	}
	lo, hi = maxB(lo, t.lo), minB(hi, t.hi)
	if bd != nil {
		if r, ok := bd[t]; ok {
			lo, hi = maxB(lo, r[0]), minB(hi, r[1])
		}
	}
	return
}

func (c *Ctx) rangeLin(l lin, k *big.Int, bd bounds) (lo, hi *big.Int) {
	return c.rangeLinD(l, k, bd, 10)
}
func (c *Ctx) rangeLinD(l lin, k *big.Int, bd bounds, d int) (lo, hi *big.Int) {
	lo, hi = new(big.Int).Set(k), new(big.Int).Set(k)
	for t, m := range l {
		tl, th := c.rangeD(t, bd, d)
		if m.Sign() < 0 {
			tl, th = th, tl
		}
		if lo != nil {
			if tl == nil {
				lo = nil
			} else {
				lo.Add(lo, new(big.Int).Mul(m, tl))
			}
		}
		if hi != nil {
			if th == nil {
				hi = nil
			} else {
				hi.Add(hi, new(big.Int).Mul(m, th))
			}
		}
	}
	return
}

// ---- bit-vectors

func mask(w int) *big.Int {
	m := new(big.Int).Lsh(big.NewInt(1), uint(w))
	return m.Sub(m, big.NewInt(1))
}

func (c *Ctx) sval(t *Term) *big.Int { // signed value of bv const
	w := bvw(t.sort)
	if t.num.Bit(w-1) == 1 {
		return new(big.Int).Sub(t.num, new(big.Int).Lsh(big.NewInt(1), uint(w)))
	}
	return t.num
}

func (c *Ctx) bvop0(op string, a, b *Term) *Term {
	if a.sort != b.sort {
		panic("bvop " + op + " " + a.sort + " " + b.sort)
	}
	w := bvw(a.sort)
	if a.isNum() && b.isNum() {
		r := new(big.Int)
		x, y := a.num, b.num
		sx, sy := c.sval(a), c.sval(b)
		switch op {
		case "bvadd":
			return c.BV(r.Add(x, y), w)
		case "bvsub":
			return c.BV(r.Sub(x, y), w)
		case "bvmul":
			return c.BV(r.Mul(x, y), w)
		case "bvand":
			return c.BV(r.And(x, y), w)
		case "bvor":
			return c.BV(r.Or(x, y), w)
		case "bvxor":
			return c.BV(r.Xor(x, y), w)
		case "bvshl":
			if y.IsInt64() && y.Int64() < int64(w) {
				return c.BV(r.Lsh(x, uint(y.Int64())), w)
			}
			return c.BV(r, w)
		case "bvlshr":
			if y.IsInt64() && y.Int64() < int64(w) {
				return c.BV(r.Rsh(x, uint(y.Int64())), w)
			}
			return c.BV(r, w)
		case "bvashr":
			n := uint(w)
			if y.IsInt64() && y.Int64() < int64(w) {
				n = uint(y.Int64())
			}
			return c.BV(r.Rsh(sx, n), w)
		case "bvudiv":
			if y.Sign() != 0 {
				return c.BV(r.Quo(x, y), w)
			}
		case "bvurem":
			if y.Sign() != 0 {
				return c.BV(r.Rem(x, y), w)
			}
		case "bvsdiv":
			if y.Sign() != 0 {
				return c.BV(r.Quo(sx, sy), w)
			}
		case "bvsrem":
			if y.Sign() != 0 {
				return c.BV(r.Rem(sx, sy), w)
			}
		}
	}
	zero := func(t *Term) bool { return t.isNum() && t.num.Sign() == 0 }
	ones := func(t *Term) bool { return t.isNum() && t.num.Cmp(mask(w)) == 0 }
	switch op {
	case "bvadd", "bvor", "bvxor", "bvand", "bvmul":
		if a.isNum() && !b.isNum() {
			a, b = b, a
		}
	}
	switch op {
	case "bvadd", "bvsub", "bvor", "bvxor", "bvshl", "bvlshr", "bvashr":
		if zero(b) {
			return a
		}
	}
	switch op {
	case "bvand":
		if zero(b) {
			return b
		}
		if ones(b) || a == b {
			return a
		}
		if b.isNum() {
			// split by runs of the mask
			return c.maskRuns(a, b.num, w)
		}
	case "bvor":
		if ones(b) {
			return b
		}
		if a == b {
			return a
		}
		if r := c.bitwiseConcat(op, a, b); r != nil {
			return r
		}
	case "bvxor":
		if a == b {
			return c.BV(new(big.Int), w)
		}
		if r := c.bitwiseConcat(op, a, b); r != nil {
			return r
		}
	case "bvsub":
		if a == b {
			return c.BV(new(big.Int), w)
		}
	case "bvshl":
		if b.isNum() {
			n := w
			if b.num.IsInt64() && b.num.Int64() < int64(w) {
				n = int(b.num.Int64())
			}
			if n >= w {
				return c.BV(new(big.Int), w)
			}
			return c.Concat(c.Extract(a, w-1-n, 0), c.BV(new(big.Int), n))
		}
	case "bvlshr":
		if b.isNum() {
			n := w
			if b.num.IsInt64() && b.num.Int64() < int64(w) {
				n = int(b.num.Int64())
			}
			if n >= w {
				return c.BV(new(big.Int), w)
			}
			return c.Concat(c.BV(new(big.Int), n), c.Extract(a, w-1, n))
		}
	case "bvashr":
		if b.isNum() {
			n := w - 1
			if b.num.IsInt64() && b.num.Int64() < int64(w) {
				n = int(b.num.Int64())
			}
			return c.SExt(c.Extract(a, w-1, n), w)
		}
	case "bvmul":
		if b.isNum() && b.num.Cmp(big.NewInt(1)) == 0 {
			return a
		}
		if zero(b) {
			return b
		}
		if b.isNum() && new(big.Int).And(b.num, new(big.Int).Sub(b.num, big.NewInt(1))).Sign() == 0 {
			return c.BVop("bvshl", a, c.BV(big.NewInt(int64(b.num.BitLen()-1)), w))
		}
	}
	return c.mk(op, a.sort, nil, "", a, b)
}

func (c *Ctx) maskRuns(a *Term, m *big.Int, w int) *Term {
	var parts []*Term
	i := w - 1
	for i >= 0 {
		j := i
		for j >= 0 && m.Bit(j) == m.Bit(i) {
			j--
		}
		if m.Bit(i) == 1 {
			parts = append(parts, c.Extract(a, i, j+1))
		} else {
			parts = append(parts, c.BV(new(big.Int), i-j))
		}
		i = j
	}
	return c.Concat(parts...)
}

// bitwiseConcat distributes or/xor over concatenations when one operand is a
// concat containing constants (keeps shifted/merged fields symbolic but flat).
func (c *Ctx) bitwiseConcat(op string, a, b *Term) *Term {
	if a.op != "concat" && b.op != "concat" {
		if b.isNum() && a.op != "concat" {
			return c.constBits(op, a, b)
		}
		return nil
	}
	if !(hasConstPart(a) || hasConstPart(b)) {
		return nil
	}
	w := bvw(a.sort)
	cuts := map[int]bool{w: true, 0: true}
	for _, t := range []*Term{a, b} {
		if t.op == "concat" {
			p := w
			for _, x := range t.args {
				p -= bvw(x.sort)
				cuts[p] = true
			}
		}
	}
	var cs []int
	for k := range cuts {
		cs = append(cs, k)
	}
	sort.Sort(sort.Reverse(sort.IntSlice(cs)))
	var parts []*Term
	for i := 0; i+1 < len(cs); i++ {
		x, y := c.Extract(a, cs[i]-1, cs[i+1]), c.Extract(b, cs[i]-1, cs[i+1])
		parts = append(parts, c.BVop(op, x, y))
	}
	return c.Concat(parts...)
}

func hasConstPart(t *Term) bool {
	if t.isNum() {
		return true
	}
	if t.op == "concat" {
		for _, a := range t.args {
			if a.isNum() {
				return true
			}
		}
	}
	return false
}

func (c *Ctx) constBits(op string, a, k *Term) *Term {
	w := bvw(a.sort)
	if a.isNum() {
		return nil
	}
	// or/xor with a constant: runs
	var parts []*Term
	i := w - 1
	n := 0
	for i >= 0 {
		j := i
		for j >= 0 && k.num.Bit(j) == k.num.Bit(i) {
			j--
		}
		x := c.Extract(a, i, j+1)
		if k.num.Bit(i) == 1 {
			if op == "bvor" {
				x = c.BV(mask(i-j), i-j)
			} else {
				x = c.BVnot(x)
			}
		}
		parts = append(parts, x)
		n++
		i = j
	}
	if n == 1 {
		return parts[0]
	}
	return c.Concat(parts...)
}

func (c *Ctx) bvnot0(a *Term) *Term {
	if a.isNum() {
		return c.BV(new(big.Int).Xor(a.num, mask(bvw(a.sort))), bvw(a.sort))
	}
	if a.op == "bvnot" {
		return a.args[0]
	}
	if a.op == "concat" {
		var ps []*Term
		for _, p := range a.args {
			ps = append(ps, c.BVnot(p))
		}
		return c.Concat(ps...)
	}
	return c.mk("bvnot", a.sort, nil, "", a)
}
func (c *Ctx) bvneg0(a *Term) *Term {
	if a.isNum() {
		return c.BV(new(big.Int).Neg(a.num), bvw(a.sort))
	}
	return c.mk("bvneg", a.sort, nil, "", a)
}

func (c *Ctx) concat0(ts ...*Term) *Term {
	var parts []*Term
	for _, t := range ts {
		if bvw(t.sort) == 0 {
			continue
		}
		l := []*Term{t}
		if t.op == "concat" {
			l = t.args
		}
		for _, p := range l {
			if n := len(parts); n > 0 {
				q := parts[n-1]
				if q.isNum() && p.isNum() {
					v := new(big.Int).Lsh(q.num, uint(bvw(p.sort)))
					v.Or(v, p.num)
					parts[n-1] = c.BV(v, bvw(q.sort)+bvw(p.sort))
					continue
				}
				// adjacent extracts of the same term
				if q.op == "extract" && p.op == "extract" && q.args[0] == p.args[0] {
					qh, ql := exIdx(q)
					ph, pl := exIdx(p)
					_ = qh
					if ql == ph+1 {
						parts[n-1] = c.Extract(q.args[0], qh, pl)
						continue
					}
				}
			}
			parts = append(parts, p)
		}
	}
	if len(parts) == 0 {
		panic("empty concat")
	}
	if len(parts) == 1 {
		return parts[0]
	}
	w := 0
	for _, p := range parts {
		w += bvw(p.sort)
	}
	return c.mk("concat", bvs(w), nil, "", parts...)
}

func exIdx(t *Term) (hi, lo int) {
	fmt.Sscanf(t.str, "%d %d", &hi, &lo)
	return
}

func (c *Ctx) extract0(a *Term, hi, lo int) *Term {
	w := bvw(a.sort)
	if hi < lo {
		return c.mk("bv", "BV0", new(big.Int), "")
	}
	if hi == w-1 && lo == 0 {
		return a
	}
	switch a.op {
	case "bv":
		v := new(big.Int).Rsh(a.num, uint(lo))
		return c.BV(v, hi-lo+1)
	case "extract":
		_, l := exIdx(a)
		return c.Extract(a.args[0], hi+l, lo+l)
	case "concat":
		pos := w
		var parts []*Term
		for _, p := range a.args {
			pw := bvw(p.sort)
			pl, ph := pos-pw, pos-1
			pos = pl
			if ph < lo || pl > hi {
				continue
			}
			h, l := hi, lo
			if ph < h {
				h = ph
			}
			if pl > l {
				l = pl
			}
			parts = append(parts, c.Extract(p, h-pl, l-pl))
		}
		return c.Concat(parts...)
	case "bvand", "bvor", "bvxor":
		return c.BVop(a.op, c.Extract(a.args[0], hi, lo), c.Extract(a.args[1], hi, lo))
	case "bvnot":
		return c.BVnot(c.Extract(a.args[0], hi, lo))
	case "ite":
		return c.Ite(a.args[0], c.Extract(a.args[1], hi, lo), c.Extract(a.args[2], hi, lo))
	case "bvadd", "bvsub", "bvmul":
		if lo == 0 {
			return c.BVop(a.op, c.Extract(a.args[0], hi, 0), c.Extract(a.args[1], hi, 0))
		}
	case "sext":
		iw := bvw(a.args[0].sort)
		if hi < iw {
			return c.Extract(a.args[0], hi, lo)
		}
	}
	return c.mk("extract", bvs(hi-lo+1), nil, fmt.Sprintf("%d %d", hi, lo), a)
}

func (c *Ctx) ZExt(a *Term, w int) *Term {
	aw := bvw(a.sort)
	if aw >= w {
		return c.Extract(a, w-1, 0)
	}
	return c.Concat(c.BV(new(big.Int), w-aw), a)
}
func (c *Ctx) sext0(a *Term, w int) *Term {
	aw := bvw(a.sort)
	if aw >= w {
		return c.Extract(a, w-1, 0)
	}
	if a.isNum() {
		return c.BV(c.sval(a), w)
	}
	if a.op == "concat" && a.args[0].isNum() && a.args[0].num.Bit(bvw(a.args[0].sort)-1) == 0 {
		return c.ZExt(a, w)
	}
	return c.mk("sext", bvs(w), nil, "", a)
}

func (c *Ctx) bvcmp0(op string, a, b *Term) *Term { // bvult bvule bvslt bvsle
	if a.isNum() && b.isNum() {
		var r int
		if op == "bvult" || op == "bvule" {
			r = a.num.Cmp(b.num)
		} else {
			r = c.sval(a).Cmp(c.sval(b))
		}
		if op == "bvult" || op == "bvslt" {
			return c.Bool(r < 0)
		}
		return c.Bool(r <= 0)
	}
	if a == b {
		return c.Bool(op == "bvule" || op == "bvsle")
	}
	// zero-extended values compared with constants out of their range
	ua, ka := topZeros(a)
	ub, kb := topZeros(b)
	w := bvw(a.sort)
	if ka > 0 && kb > 0 && (op == "bvslt" || op == "bvsle") {
		if op == "bvslt" {
			return c.BVcmp("bvult", a, b)
		}
		return c.BVcmp("bvule", a, b)
	}
	_ = ua
	_ = ub
	if op == "bvult" || op == "bvule" {
		if b.isNum() && ka > 0 {
			m := mask(w - ka)
			if m.Cmp(b.num) < 0 || (op == "bvule" && m.Cmp(b.num) == 0) {
				return c.Bool(true)
			}
		}
		if a.isNum() && kb > 0 {
			m := mask(w - kb)
			if m.Cmp(a.num) < 0 || (op == "bvult" && m.Cmp(a.num) == 0) {
				return c.Bool(false)
			}
		}
		if op == "bvult" && b.isNum() && b.num.Sign() == 0 {
			return c.Bool(false)
		}
		if op == "bvule" && a.isNum() && a.num.Sign() == 0 {
			return c.Bool(true)
		}
	}
	return c.mk(op, "Bool", nil, "", a, b)
}

func topZeros(t *Term) (*Term, int) {
	w := bvw(t.sort)
	if t.isNum() {
		return t, w - t.num.BitLen()
	}
	if t.op == "concat" && t.args[0].isNum() {
		return t, bvw(t.args[0].sort) - t.args[0].num.BitLen()
	}
	if t.op == "ite" {
		_, a := topZeros(t.args[1])
		_, b := topZeros(t.args[2])
		if b < a {
			a = b
		}
		return t, a
	}
	return t, 0
}

// ---- sequences

func (c *Ctx) Unit(x *Term) *Term {
	if x.op == "int" && x.num.IsInt64() {
		v := x.num.Int64()
		if v >= 0 && v < 256 {
			return c.Lit(string([]byte{byte(v)}))
		}
	}
	return c.mk("unit", "Seq", nil, "", x)
}

func (c *Ctx) Empty() *Term { return c.Lit("") }

// piece: t as the piece of a sequence from an offset on, of a length.
func (c *Ctx) piece(t *Term) (of, off, n *Term) {
	switch {
	case t.op == "sub":
		return t.args[0], t.args[1], t.args[2]
	case t.op == "unit" && t.args[0].op == "nth":
		return t.args[0].args[0], t.args[0].args[1], c.Int(1)
	}
	return nil, nil, nil
}

func (c *Ctx) Cat(ts ...*Term) *Term {
	var parts []*Term
	for _, t := range ts {
		l := []*Term{t}
		if t.op == "++" {
			l = t.args
		}
		for _, p := range l {
			if p.op == "lit" && p.str == "" {
				continue
			}
			if n := len(parts); n > 0 {
				q := parts[n-1]
				if q.op == "lit" && p.op == "lit" {
					parts[n-1] = c.Lit(q.str + p.str)
					continue
				}
				qt, qo, qn := c.piece(q)
				pt, po, pn := c.piece(p)
				if qt != nil && qt == pt && c.Add(qo, qn) == po {
					parts[n-1] = c.Sub3(qt, qo, c.Add(qn, pn))
					continue
				}
			}
			parts = append(parts, p)
		}
	}
	if len(parts) == 0 {
		return c.Lit("")
	}
	if len(parts) == 1 {
		return parts[0]
	}
	return c.mk("++", "Seq", nil, "", parts...)
}

func seqParts(t *Term) []*Term {
	if t.op == "++" {
		return t.args
	}
	if t.op == "lit" && t.str == "" {
		return nil
	}
	return []*Term{t}
}

func (c *Ctx) Len(t *Term) *Term {
	switch t.op {
	case "lit":
		return c.Int(int64(len(t.str)))
	case "unit":
		return c.Int(1)
	case "++":
		var ls []*Term
		for _, p := range t.args {
			ls = append(ls, c.Len(p))
		}
		return c.Add(ls...)
	case "sub": // constructor guarantees in-bounds
		return t.args[2]
	case "ite":
		return c.Ite(t.args[0], c.Len(t.args[1]), c.Len(t.args[2]))
	case "upd":
		return c.Len(t.args[0])
	}
	if t.lo != nil && t.hi != nil && t.lo.Cmp(t.hi) == 0 { // fixed-length sequence symbol
		return c.Big(t.lo)
	}
	return c.mk("len", "Int", nil, "", t)
}

// FixLen declares the length of a sequence symbol.
func (c *Ctx) FixLen(t *Term, n int64) *Term {
	t.lo, t.hi = big.NewInt(n), big.NewInt(n)
	c.Fact(t, c.mk("=", "Bool", nil, "", c.mk("len", "Int", nil, "", t), c.Int(n)))
	return t
}

// FixLen2 ties the length of a fresh sequence symbol to n.
func (c *Ctx) FixLen2(t, n *Term) *Term {
	if k, ok := n.constInt(); ok {
		return c.FixLen(t, k)
	}
	c.Fact(t, c.mk("=", "Bool", nil, "", c.mk("len", "Int", nil, "", t), n))
	return t
}

// Sub3 is t[off : off+n]; the caller guarantees 0<=off, 0<=n, off+n<=len(t).
func (c *Ctx) Sub3(t, off, n *Term) *Term {
	if v, ok := n.constInt(); ok && v == 0 {
		return c.Lit("")
	}
	if o, ok := off.constInt(); ok && o == 0 && n == c.Len(t) {
		return t
	}
	switch t.op {
	case "lit":
		o, ok1 := off.constInt()
		k, ok2 := n.constInt()
		if ok1 && ok2 && o >= 0 && k >= 0 && o+k <= int64(len(t.str)) {
			return c.Lit(t.str[o : o+k])
		}
	case "sub":
		return c.Sub3(t.args[0], c.Add(t.args[1], off), n)
	case "ite":
		if len(t.args[1].op) > 0 {
			return c.Ite(t.args[0], c.Sub3(t.args[1], off, n), c.Sub3(t.args[2], off, n))
		}
	case "++":
		// locate start and end
		end := c.Add(off, n)
		cum := c.Int(0)
		ps := t.args
		si := -1
		var soff *Term
		for i, p := range ps {
			nx := c.Add(cum, c.Len(p))
			// start in part i iff cum <= off < nx  (or off==cum)
			if c.Le(cum, off).isTrue() {
				if off == cum || c.Lt(off, nx).isTrue() {
					si, soff = i, c.Sub(off, cum)
					break
				}
				if !c.Le(nx, off).isTrue() {
					return c.mk("sub", "Seq", nil, "", t, off, n)
				}
			} else {
				return c.mk("sub", "Seq", nil, "", t, off, n)
			}
			cum = nx
		}
		if si < 0 {
			return c.mk("sub", "Seq", nil, "", t, off, n)
		}
		var out []*Term
		cur := cum
		for i := si; i < len(ps); i++ {
			p := ps[i]
			nx := c.Add(cur, c.Len(p))
			lo := c.Int(0)
			if i == si {
				lo = soff
			}
			if c.Le(nx, end).isTrue() {
				out = append(out, c.Sub3(p, lo, c.Sub(c.Len(p), lo)))
				if nx == end {
					return c.Cat(out...)
				}
			} else if c.Le(end, nx).isTrue() {
				out = append(out, c.Sub3(p, lo, c.Sub(c.Sub(end, cur), lo)))
				return c.Cat(out...)
			} else {
				// undecided: keep raw from here
				rest := c.Cat(ps[i:]...)
				out = append(out, c.mk("sub", "Seq", nil, "", rest, lo, c.Sub(c.Sub(end, cur), lo)))
				return c.Cat(out...)
			}
			cur = nx
		}
		return c.Cat(out...)
	}
	return c.mk("sub", "Seq", nil, "", t, off, n)
}

// Nth is t[i]; the caller guarantees the bounds.
func (c *Ctx) Nth(t, i *Term) *Term {
	switch t.op {
	case "lit":
		if k, ok := i.constInt(); ok && k >= 0 && k < int64(len(t.str)) {
			return c.Int(int64(t.str[k]))
		}
		if len(t.str) == 1 {
			return c.Int(int64(t.str[0]))
		}
	case "unit":
		return t.args[0]
	case "sub":
		return c.Nth(t.args[0], c.Add(t.args[1], i))
	case "upd":
		if t.args[1] == i {
			return t.args[2]
		}
		e := c.Eq(t.args[1], i)
		if e.isFalse() {
			return c.Nth(t.args[0], i)
		}
		return c.Ite(e, t.args[2], c.Nth(t.args[0], i))
	case "ite":
		return c.Ite(t.args[0], c.Nth(t.args[1], i), c.Nth(t.args[2], i))
	case "uf":
		if strings.HasPrefix(t.str, "b32enc_") {
			if r := c.b32nth(t, i); r != nil {
				return r
			}
		}
	case "++":
		cum := c.Int(0)
		for j, p := range t.args {
			nx := c.Add(cum, c.Len(p))
			if c.Le(cum, i).isTrue() && c.Lt(i, nx).isTrue() {
				return c.Nth(p, c.Sub(i, cum))
			}
			if !c.Le(nx, i).isTrue() {
				if j > 0 {
					return c.mkNth(c.Cat(t.args[j:]...), c.Sub(i, cum))
				}
				break
			}
			cum = nx
		}
	}
	return c.mkNth(t, i)
}

func (c *Ctx) mkNth(t, i *Term) *Term {
	n := c.mk("nth", "Int", nil, "", t, i)
	c.Fact(n, c.And(c.mk("<=", "Bool", nil, "", c.Int(0), n), c.mk("<=", "Bool", nil, "", n, c.Int(255))))
	return n
}

// Upd is t with t[i] = v (bounds guaranteed by the caller).
func (c *Ctx) Upd(t, i, v *Term) *Term {
	n := c.Len(t)
	a := c.Sub3(t, c.Int(0), i)
	b := c.Sub3(t, c.Add(i, c.Int(1)), c.Sub(n, c.Add(i, c.Int(1))))
	return c.Cat(a, c.Unit(v), b)
}

// seqEq simplifies an equation between sequences; nil when nothing is known.
func (c *Ctx) seqEq(a, b *Term) *Term {
	l, k := c.linDiff(c.Len(a), c.Len(b))
	if len(l) == 0 && k.Sign() != 0 {
		return c.Bool(false)
	}
	lo, hi := c.rangeLin(l, k, nil)
	if (lo != nil && lo.Sign() > 0) || (hi != nil && hi.Sign() < 0) {
		return c.Bool(false)
	}
	if a.op == "ite" && b.op != "ite" && (a.args[1] == b || a.args[2] == b) {
		return c.Ite(a.args[0], c.Eq(a.args[1], b), c.Eq(a.args[2], b))
	}
	if b.op == "ite" && a.op != "ite" && (b.args[1] == a || b.args[2] == a) {
		return c.Ite(b.args[0], c.Eq(a, b.args[1]), c.Eq(a, b.args[2]))
	}
	pa, pb := seqParts(a), seqParts(b)
	if len(pa) <= 1 && len(pb) <= 1 {
		if len(pa) == 1 && len(pb) == 1 && pa[0].op == "unit" && pb[0].op == "unit" {
			return c.Eq(pa[0].args[0], pb[0].args[0])
		}
		if len(pa) == 1 && len(pb) == 1 && pa[0].op == "unit" && pb[0].op == "lit" && len(pb[0].str) == 1 {
			return c.Eq(pa[0].args[0], c.Int(int64(pb[0].str[0])))
		}
		if len(pa) == 1 && len(pb) == 1 && pb[0].op == "unit" && pa[0].op == "lit" && len(pa[0].str) == 1 {
			return c.Eq(pb[0].args[0], c.Int(int64(pa[0].str[0])))
		}
		return nil
	}
	// align common prefix
	var conj []*Term
	changed := false
	for len(pa) > 0 && len(pb) > 0 {
		x, y := pa[0], pb[0]
		if x == y {
			pa, pb = pa[1:], pb[1:]
			changed = true
			continue
		}
		lx, ly := c.Len(x), c.Len(y)
		if lx == ly {
			conj = append(conj, c.eqAtom(x, y))
			pa, pb = pa[1:], pb[1:]
			changed = true
			continue
		}
		if c.Le(lx, ly).isTrue() && canSplit(y) {
			y1, y2 := c.Sub3(y, c.Int(0), lx), c.Sub3(y, lx, c.Sub(ly, lx))
			conj = append(conj, c.eqAtom(x, y1))
			pa = pa[1:]
			pb = append([]*Term{y2}, pb[1:]...)
			changed = true
			continue
		}
		if c.Le(ly, lx).isTrue() && canSplit(x) {
			x1, x2 := c.Sub3(x, c.Int(0), ly), c.Sub3(x, ly, c.Sub(lx, ly))
			conj = append(conj, c.eqAtom(x1, y))
			pb = pb[1:]
			pa = append([]*Term{x2}, pa[1:]...)
			changed = true
			continue
		}
		break
	}
	for len(pa) > 0 && len(pb) > 0 {
		x, y := pa[len(pa)-1], pb[len(pb)-1]
		if x == y {
			pa, pb = pa[:len(pa)-1], pb[:len(pb)-1]
			changed = true
			continue
		}
		lx, ly := c.Len(x), c.Len(y)
		if lx == ly {
			conj = append(conj, c.eqAtom(x, y))
			pa, pb = pa[:len(pa)-1], pb[:len(pb)-1]
			changed = true
			continue
		}
		break
	}
	if !changed {
		return nil
	}
	ra, rb := c.Cat(pa...), c.Cat(pb...)
	if ra != rb {
		conj = append(conj, c.eqAtom(ra, rb))
	}
	return c.And(conj...)
}

func canSplit(t *Term) bool { return true }

func (c *Ctx) eqAtom(a, b *Term) *Term { return c.Eq(a, b) }

// ---- quantifiers (Int bound variables)

func (c *Ctx) Quant(all bool, vs []*Term, body *Term) *Term {
	if body.isTrue() || body.isFalse() {
		return body
	}
	used := false
	for _, v := range vs {
		if c.occurs(v, body) {
			used = true
		}
	}
	if !used {
		return body
	}
	op := "exists"
	if all {
		op = "forall"
	}
	args := append(append([]*Term{}, vs...), body)
	t := c.mk(op, "Bool", nil, "", args...)
	t.hasBound = c.freeBound(t)
	return t
}

func (c *Ctx) occurs(v, t *Term) bool {
	seen := map[*Term]bool{}
	var f func(x *Term) bool
	f = func(x *Term) bool {
		if x == v {
			return true
		}
		if seen[x] || !x.hasBound {
			return false
		}
		seen[x] = true
		for _, a := range x.args {
			if f(a) {
				return true
			}
		}
		return false
	}
	return f(t)
}

func (c *Ctx) freeBound(t *Term) bool {
	bound := map[*Term]bool{}
	var f func(x *Term) bool
	f = func(x *Term) bool {
		if !x.hasBound {
			return false
		}
		if x.op == "var" {
			return !bound[x]
		}
		if x.op == "forall" || x.op == "exists" {
			n := len(x.args) - 1
			for _, v := range x.args[:n] {
				bound[v] = true
			}
			return f(x.args[n])
		}
		for _, a := range x.args {
			if f(a) {
				return true
			}
		}
		return false
	}
	for _, v := range t.args[:len(t.args)-1] {
		bound[v] = true
	}
	return f(t.args[len(t.args)-1])
}

// Subst replaces terms by others (rebuilding through the constructors).
func (c *Ctx) Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var f func(x *Term) *Term
	f = func(x *Term) *Term {
		if r, ok := m[x]; ok {
			return r
		}
		if len(x.args) == 0 {
			return x
		}
		if r, ok := memo[x]; ok {
			return r
		}
		as := make([]*Term, len(x.args))
		ch := false
		for i, a := range x.args {
			as[i] = f(a)
			if as[i] != a {
				ch = true
			}
		}
		r := x
		if ch {
			r = c.rebuild(x, as)
		}
		memo[x] = r
		return r
	}
	return f(t)
}

func (c *Ctx) rebuild(x *Term, as []*Term) *Term {
	switch x.op {
	case "not":
		return c.Not(as[0])
	case "and":
		return c.And(as...)
	case "or":
		return c.Or(as...)
	case "ite":
		return c.Ite(as[0], as[1], as[2])
	case "=":
		return c.Eq(as[0], as[1])
	case "+":
		return c.Add(as...)
	case "*":
		return c.Mul(as[0], as[1])
	case "div":
		return c.Div(as[0], as[1])
	case "mod":
		return c.Mod(as[0], as[1])
	case "<=":
		return c.Le(as[0], as[1])
	case "++":
		return c.Cat(as...)
	case "unit":
		return c.Unit(as[0])
	case "len":
		return c.Len(as[0])
	case "sub":
		return c.Sub3(as[0], as[1], as[2])
	case "nth":
		return c.Nth(as[0], as[1])
	case "concat":
		return c.Concat(as...)
	case "extract":
		h, l := exIdx(x)
		return c.Extract(as[0], h, l)
	case "sext":
		return c.SExt(as[0], bvw(x.sort))
	case "xor1":
		return c.xorBits(append([]*Term{c.BV(big.NewInt(int64(x.str[0]-'0')), 1)}, as...)...)
	case "bvnot":
		return c.BVnot(as[0])
	case "bvneg":
		return c.BVneg(as[0])
	case "bvult", "bvule", "bvslt", "bvsle":
		return c.BVcmp(x.op, as[0], as[1])
	case "forall", "exists":
		return c.Quant(x.op == "forall", as[:len(as)-1], as[len(as)-1])
	case "select":
		return c.Select(as[0], as[1])
	case "store":
		return c.Store(as[0], as[1], as[2])
	}
	if strings.HasPrefix(x.op, "bv") && len(as) == 2 {
		return c.BVop(x.op, as[0], as[1])
	}
	t := c.mk(x.op, x.sort, x.num, x.str, as...)
	if t.lo == nil && t.hi == nil {
		t.lo, t.hi = x.lo, x.hi
	}
	return t
}

// ---- arrays Int -> Int

func (c *Ctx) Select(a, i *Term) *Term {
	if a.op == "store" {
		e := c.Eq(a.args[1], i)
		if e.isTrue() {
			return a.args[2]
		}
		if e.isFalse() {
			return c.Select(a.args[0], i)
		}
	}
	if a.op == "ite" {
		return c.Ite(a.args[0], c.Select(a.args[1], i), c.Select(a.args[2], i))
	}
	es := a.sort[4:]
	t := c.mk("select", es, nil, "", a, i)
	root := a
	for root.op == "store" {
		root = root.args[0]
	}
	if t.lo == nil && t.hi == nil && es == "Int" && (a.lo != nil || a.hi != nil) {
		t.lo, t.hi = a.lo, a.hi
	}
	return t
}
func (c *Ctx) Store(a, i, v *Term) *Term {
	t := c.mk("store", a.sort, nil, "", a, i, v)
	if v.sort == "Int" {
		vl, vh := c.Range(v, nil)
		if a.lo != nil && vl != nil {
			t.lo = minB(a.lo, vl)
		}
		if a.hi != nil && vh != nil {
			t.hi = maxB(a.hi, vh)
		}
	}
	return t
}

// Str renders a term for humans.
func (c *Ctx) Str(t *Term) string {
	s := smtTerm(t, "cvc5")
	if len(s) > 400 {
		s = s[:400] + "..."
	}
	return s
}

// b32nth is a character of a base32 encoding, when the length is known.
func (c *Ctx) b32nth(t, i *Term) *Term {
	k, ok := i.constInt()
	n, ok2 := c.Len(t.args[0]).constInt()
	if !ok || !ok2 || k < 0 || k >= (n+4)/5*8 {
		return nil
	}
	bit := k / 8 * 40
	bit += k % 8 * 5
	b0 := bit / 8
	if b0 >= n {
		return c.Int('=')
	}
	at := func(j int64) *Term {
		if j >= n {
			return c.Int(0)
		}
		return c.Nth(t.args[0], c.Int(j))
	}
	sh := bit % 8
	v := at(b0)
	if sh <= 3 {
		v = c.Mod(c.Div(v, c.Int(1<<uint(3-sh))), c.Int(32))
	} else {
		lo := 8 - sh // bits taken from b0
		v = c.Mod(v, c.Int(1<<uint(lo)))
		v = c.Add(c.Mul(v, c.Int(1<<uint(5-lo))), c.Div(at(b0+1), c.Int(1<<uint(8-(5-lo)))))
	}
	alpha := c.b32alpha[t.str[len("b32enc_"):]]
	if x, ok := v.constInt(); ok && x >= 0 && x < 32 {
		return c.Int(int64(alpha[x]))
	}
	r := c.Int(int64(alpha[31]))
	for x := 30; x >= 0; x-- {
		r = c.Ite(c.Eq(v, c.Int(int64(x))), c.Int(int64(alpha[x])), r)
	}
	return r
}

func (c *Ctx) BVop(op string, a, b *Term) *Term {
	if c.cs == nil {
		return c.bvop0(op, a, b)
	}
	if op == "bvxor" && !(a.isNum() && b.isNum()) {
		w := bvw(a.sort)
		var ps []*Term
		for i := w - 1; i >= 0; i-- {
			ps = append(ps, c.xorBits(c.Extract(a, i, i), c.Extract(b, i, i)))
		}
		return c.Concat(ps...)
	}
	return c.canonize(c.bvop0(op, a, b))
}

func (c *Ctx) Ite(g, a, b *Term) *Term {
	if c.cs == nil {
		return c.ite0(g, a, b)
	}
	if isBV(a.sort) && !g.isTrue() && !g.isFalse() && a != b {
		if r := c.canonIte(g, a, b); r != nil {
			return r
		}
	}
	return c.canonize(c.ite0(g, a, b))
}

func (c *Ctx) Eq(a, b *Term) *Term {
	if c.cs == nil {
		return c.eq0(a, b)
	}
	if a == b {
		return c.Bool(true)
	}
	if isBV(a.sort) && !(a.isNum() && b.isNum()) {
		if x := c.canonize(c.mk("=", "Bool", nil, "", a, b)); x.op != "=" || len(c.tt(x).supOr()) > 0 {
			return x
		}
		return c.canonEq(a, b)
	}
	return c.canonize(c.eq0(a, b))
}

func (c *Ctx) BVnot(a *Term) *Term {
	if c.cs == nil {
		return c.bvnot0(a)
	}
	return c.canonize(c.bvnot0(a))
}

func (c *Ctx) BVneg(a *Term) *Term {
	if c.cs == nil {
		return c.bvneg0(a)
	}
	return c.canonize(c.bvneg0(a))
}

func (c *Ctx) SExt(a *Term, w int) *Term {
	if c.cs == nil {
		return c.sext0(a, w)
	}
	return c.canonize(c.sext0(a, w))
}

func (c *Ctx) BVcmp(op string, a, b *Term) *Term {
	if c.cs == nil {
		return c.bvcmp0(op, a, b)
	}
	return c.canonize(c.bvcmp0(op, a, b))
}

func (c *Ctx) Extract(a *Term, hi, lo int) *Term {
	if c.cs == nil {
		return c.extract0(a, hi, lo)
	}
	return c.extract0(a, hi, lo)
}

func (c *Ctx) Concat(ts ...*Term) *Term {
	if c.cs == nil {
		return c.concat0(ts...)
	}
	return c.concat0(ts...)
}

func (t *ttab) supOr() []*Term {
	if t == nil {
		return nil
	}
	return t.sup
}
