package main

import (
	"fmt"
	"go/types"
	"math"
	"math/big"
	"strings"
)

// Decimal texts of numbers.  In contracts with the directive "digits", the
// text of an unknown number forks on its sign and its number of digits; each
// digit is an unknown of its own, and the number is their weighted sum.  (Such
// digits exist and are unique.)

func (ex *Exec) forkOn(st *State, cond *Term) (yes, no *State) {
	cond = ex.simp(st, cond)
	if cond.isTrue() {
		return st, nil
	}
	if cond.isFalse() {
		return nil, st
	}
	a := st.clone()
	if ex.assume(a, cond) && ex.feasible(a, false) {
		yes = a
	}
	b := st.clone()
	if ex.assume(b, ex.c.Not(cond)) && ex.feasible(b, false) {
		no = b
	}
	return
}

type textOut struct {
	st *State
	t  *Term
}

// decText: the decimal text of v, with at least width digits.
func (ex *Exec) decText(st *State, v *Term, width int) []textOut {
	c := ex.c
	if k, ok := v.constInt(); ok || v.isNum() {
		if v.isNum() {
			s := fmt.Sprintf("%0*d", width, v.num)
			return []textOut{{st, c.Lit(s)}}
		}
		return []textOut{{st, c.Lit(fmt.Sprintf("%0*d", width, k))}}
	}
	var outs []textOut
	neg, pos := ex.forkOn(st, c.Lt(v, c.Int(0)))
	if neg != nil {
		w := width - 1
		if w < 0 {
			w = 0
		}
		for _, o := range ex.natText(neg, c.Neg(v), w) {
			outs = append(outs, textOut{o.st, c.Cat(c.Lit("-"), o.t)})
		}
	}
	if pos != nil {
		outs = append(outs, ex.natText(pos, v, width)...)
	}
	return outs
}

// knownDigits are the decimal digits of a number that is written as a sum of
// digits times different powers of ten, the most significant first.
func (ex *Exec) knownDigits(st *State, v *Term, width int) []*Term {
	c := ex.c
	l, k := lin{}, new(big.Int)
	c.linOf(v, big.NewInt(1), l, k)
	if len(l) == 0 || len(l) > 30 {
		return nil
	}
	at := map[int]*Term{}
	top := 0
	rest := new(big.Int).Set(k)
	for x, m := range l {
		s := m.String()
		if m.Sign() <= 0 || s[0] != '1' || strings.Trim(s[1:], "0") != "" {
			return nil
		}
		lo, hi := c.Range(x, st.bd)
		if lo == nil || hi == nil {
			return nil
		}
		off := big.NewInt(0)
		if hi.Cmp(big.NewInt(9)) > 0 {
			off = big.NewInt(48)
		}
		if lo.Cmp(off) < 0 || new(big.Int).Sub(hi, off).Cmp(big.NewInt(9)) > 0 {
			return nil
		}
		p := len(s) - 1
		if at[p] != nil {
			return nil
		}
		at[p] = c.Sub(x, c.Big(off))
		rest.Add(rest, new(big.Int).Mul(m, off))
		if p > top {
			top = p
		}
	}
	if rest.Sign() != 0 {
		return nil
	}
	if lo, _ := c.Range(at[top], st.bd); top > 0 && top >= width && (lo == nil || lo.Sign() <= 0) {
		return nil
	}
	var ds []*Term
	for p := top; p >= 0; p-- {
		if at[p] == nil {
			ds = append(ds, c.Int(0))
		} else {
			ds = append(ds, at[p])
		}
	}
	return ds
}

func (ex *Exec) natText(st *State, v *Term, width int) []textOut {
	c := ex.c
	if ds := ex.knownDigits(st, v, width); ds != nil {
		t := c.Lit(strings.Repeat("0", max(0, width-len(ds))))
		for _, d := range ds {
			t = c.Cat(t, c.Unit(c.Add(d, c.Int(48))))
		}
		return []textOut{{st, t}}
	}
	var outs []textOut
	ten := big.NewInt(10)
	lim := new(big.Int).Set(ten)
	cur := st
	for n := 1; cur != nil; n++ {
		if n > 80 {
			unsup("number of unbounded size as text")
		}
		var in *State
		if n < width {
			lim.Mul(lim, ten)
			continue
		}
		in, cur = ex.forkOn(cur, c.Lt(v, c.Big(lim)))
		lim = new(big.Int).Mul(lim, ten)
		if in == nil {
			continue
		}
		key := fmt.Sprintf("%d/%d/%d", v.id, n, width)
		ds, ok := ex.digitVars[key]
		if !ok {
			for i := 0; i < n; i++ {
				lo := int64(0)
				if i == 0 && n > 1 && n > width {
					lo = 1
				}
				ds = append(ds, c.VarRange("digit", big.NewInt(lo), big.NewInt(9)))
			}
			if ex.digitVars == nil {
				ex.digitVars = map[string][]*Term{}
				ex.isDigit = map[*Term]bool{}
			}
			for _, d := range ds {
				ex.isDigit[d] = true
			}
			ex.digitVars[key] = ds
		}
		sum := c.Int(0)
		var us []*Term
		for _, d := range ds {
			sum = c.Add(c.Mul(sum, c.Int(10)), d)
			us = append(us, c.Unit(c.Add(d, c.Int(48))))
		}
		q := c.Eq(v, sum)
		if !ex.assume(in, q) {
			continue
		}
		if ex.digitEqs == nil {
			ex.digitEqs = map[*Term]digitEq{}
		}
		ex.digitEqs[ds[n-1]] = digitEq{q, c.Sub(v, c.Sub(sum, ds[n-1]))}
		outs = append(outs, textOut{in, c.Cat(append([]*Term{c.Lit("")}, us...)...)})
	}
	return outs
}

// digitEq: on the paths where eq holds, the digit is val.
type digitEq struct{ eq, val *Term }

// elimDigits rewrites equations with what the paths knows about last digits.
func (ex *Exec) elimDigits(st *State, g *Term) *Term {
	c := ex.c
	switch {
	case g.op == "and":
		var as []*Term
		for _, a := range g.args {
			as = append(as, ex.elimDigits(st, a))
		}
		return c.And(as...)
	case g.op == "=" && g.args[0].sort == "Int":
		d := c.Sub(g.args[0], g.args[1])
		if n := ex.elimLin(st, d); n != d {
			if q := c.Eq(n, c.Int(0)); q.isTrue() {
				return q
			}
		}
	}
	return g
}

// elimLin replaces last digits in a sum by what the path knows about them.
func (ex *Exec) elimLin(st *State, t *Term) *Term {
	if st == nil || t.op != "+" && t.op != "var" && t.op != "*" {
		return t
	}
	c := ex.c
	l, k := lin{}, new(big.Int)
	c.linOf(t, big.NewInt(1), l, k)
	ch := false
	for {
		var d *Term
		for x := range l {
			if e, ok := ex.digitEqs[x]; ok && (d == nil || x.id > d.id) {
				for _, p := range st.pc {
					if p == e.eq {
						d = x
						break
					}
				}
			}
		}
		if d == nil {
			break
		}
		ch = true
		m := l[d]
		l2, k2 := lin{}, new(big.Int).Set(k)
		for x, n := range l {
			if x != d {
				l2[x] = n
			}
		}
		c.linOf(ex.digitEqs[d].val, m, l2, k2)
		l, k = l2, k2
	}
	if !ch {
		return t
	}
	return c.fromLin(l, k)
}

// sprintfExact formats %d, %0Nd, %s and %%; ok is false for anything else.
func (ex *Exec) sprintfExact(st *State, f Val, as Slice) (outs []outcome, ok bool) {
	if ex.bv || ex.opaque {
		return nil, false
	}
	format, ok := strOf(f)
	if !ok {
		return nil, false
	}
	vs, ok := ex.vecOf(st, as)
	if !ok {
		return nil, false
	}
	type piece struct {
		lit   string
		t     *Term
		num   bool
		width int
	}
	var ps []piece
	arg := 0
	for i := 0; i < len(format); {
		if format[i] != '%' {
			j := strings.IndexByte(format[i:], '%')
			if j < 0 {
				j = len(format) - i
			}
			ps = append(ps, piece{lit: format[i : i+j]})
			i += j
			continue
		}
		i++
		width := 0
		if i+1 < len(format) && format[i] == '0' && format[i+1] >= '1' && format[i+1] <= '9' {
			width = int(format[i+1] - '0')
			i += 2
			if i < len(format) && format[i] >= '0' && format[i] <= '9' {
				width = width*10 + int(format[i]-'0')
				i++
			}
		}
		if i >= len(format) {
			return nil, false
		}
		verb := format[i]
		i++
		if verb == '%' {
			ps = append(ps, piece{lit: "%"})
			continue
		}
		if arg >= len(vs) {
			return nil, false
		}
		iv, isI := vs[arg].(Iface)
		arg++
		if !isI || iv.sym || iv.typ == nil {
			return nil, false
		}
		t, isT := iv.v.(*Term)
		if !isT {
			return nil, false
		}
		_, _, isInt := intInfo(iv.typ)
		switch {
		case verb == 'd' && isInt:
			if !t.isNum() && !ex.root.digits {
				return nil, false
			}
			ps = append(ps, piece{t: t, num: true, width: width})
		case verb == 's' && iv.typ == types.Typ[types.String] && width == 0:
			if t.op != "lit" && !ex.root.digits {
				return nil, false
			}
			ps = append(ps, piece{t: t})
		default:
			return nil, false
		}
	}
	if arg != len(vs) {
		return nil, false
	}
	c := ex.c
	cur := []textOut{{st, c.Lit("")}}
	for _, p := range ps {
		var nx []textOut
		for _, o := range cur {
			switch {
			case p.num:
				for _, d := range ex.decText(o.st, p.t, p.width) {
					nx = append(nx, textOut{d.st, c.Cat(o.t, d.t)})
				}
			case p.t != nil:
				nx = append(nx, textOut{o.st, c.Cat(o.t, p.t)})
			default:
				nx = append(nx, textOut{o.st, c.Cat(o.t, c.Lit(p.lit))})
			}
		}
		cur = nx
	}
	for _, o := range cur {
		outs = append(outs, outcome{o.st, []Val{o.t}})
	}
	return outs, true
}

// digitsNative is the text of a number for strconv, when the contract asks for
// digits; nil otherwise.
func (ex *Exec) digitsNative(st *State, args []Val) []outcome {
	if ex.bv || ex.opaque || ex.root == nil || !ex.root.digits {
		return nil
	}
	v, ok := args[0].(*Term)
	if !ok || v.sort != "Int" {
		return nil
	}
	if len(args) > 1 {
		if b, ok := args[1].(*Term).constInt(); !ok || b != 10 {
			return nil
		}
	}
	var outs []outcome
	for _, o := range ex.decText(st, v, 0) {
		outs = append(outs, outcome{o.st, []Val{o.t}})
	}
	return outs
}

// floatVal is the value of a known floating-point number.
func (ex *Exec) floatVal(v Val) (float64, bool) {
	t, ok := v.(*Term)
	if !ok {
		return 0, false
	}
	f, ok := ex.floats[t]
	return f, ok
}

func init() {
	f1 := func(name string, f func(float64) float64) {
		natives["math."+name] = func(ex *Exec, st *State, cc *callCtx, args []Val) []outcome {
			x, ok := ex.floatVal(args[0])
			if !ok {
				return ret(st, ex.c.UF("math_"+name, "Float", args[0].(*Term)))
			}
			return ret(st, ex.floatConst(f(x)))
		}
	}
	f1("Floor", math.Floor)
	f1("Ceil", math.Ceil)
	f1("Trunc", math.Trunc)
	f1("Round", math.Round)
	f1("Log10", math.Log10)
	f1("Log2", math.Log2)
	f1("Log", math.Log)
	f1("Sqrt", math.Sqrt)
	f1("Exp", math.Exp)
}
