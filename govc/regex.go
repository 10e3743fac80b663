package main

import (
	"math/big"
	"go/types"
	"regexp"
	"regexp/syntax"
	"sort"
	"strings"
	"unicode/utf8"
)

// Regular expressions.  The pattern is known; the text has a known length and
// unknown bytes.  The bytes are split into the intervals that the pattern
// distinguishes, one path for each combination (as far as a match is still
// possible), and then Go's own matcher runs on a representative text.

type regexVal struct {
	re    *regexp.Regexp
	prog  *syntax.Prog
	ivs   [][2]int
	ascii bool // no class of the pattern has members outside ASCII
}

func newRegexVal(p string) (*regexVal, error) {
	re, err := regexp.Compile(p)
	if err != nil {
		return nil, err
	}
	sx, err := syntax.Parse(p, syntax.Perl)
	if err != nil {
		return nil, err
	}
	prog, err := syntax.Compile(sx.Simplify())
	if err != nil {
		return nil, err
	}
	r := &regexVal{re: re, prog: prog, ascii: true}
	cuts := map[int]bool{0: true, 128: true, 256: true}
	add := func(lo, hi rune) {
		if lo < 128 {
			cuts[int(lo)] = true
		}
		if hi < 127 {
			cuts[int(hi)+1] = true
		} else if hi > 127 {
			r.ascii = false
		}
	}
	for _, in := range prog.Inst {
		switch in.Op {
		case syntax.InstRune, syntax.InstRune1:
			rs := in.Rune
			if len(rs) == 1 {
				c := rs[0]
				add(c, c)
				if syntax.Flags(in.Arg)&syntax.FoldCase != 0 {
					add('a', 'z')
					add('A', 'Z')
					if c < 128 {
						lo := rune(strings.ToLower(string(c))[0])
						up := rune(strings.ToUpper(string(c))[0])
						add(lo, lo)
						add(up, up)
					}
					if c == 'k' || c == 'K' || c == 's' || c == 'S' {
						r.ascii = false // Kelvin sign, long s
					}
				}
				continue
			}
			for i := 0; i+1 < len(rs); i += 2 {
				add(rs[i], rs[i+1])
			}
		case syntax.InstRuneAny:
			r.ascii = false
		case syntax.InstRuneAnyNotNL:
			r.ascii = false
			add('\n', '\n')
		case syntax.InstEmptyWidth:
			add('\n', '\n')
			add('a', 'z')
			add('A', 'Z')
			add('0', '9')
			add('_', '_')
		}
	}
	var cs []int
	for c := range cuts {
		cs = append(cs, c)
	}
	sort.Ints(cs)
	for i := 0; i+1 < len(cs); i++ {
		r.ivs = append(r.ivs, [2]int{cs[i], cs[i+1] - 1})
	}
	return r, nil
}

// canMatch: whether some text that begins with pre (representatives) and has n
// bytes can contain a match.
func (r *regexVal) canMatch(pre []byte, n int) bool {
	p := r.prog
	cur := map[uint32]bool{}
	// empty-width conditions may hold whenever they could for some text
	var addTo func(s map[uint32]bool, pc uint32, pos int) bool
	addTo = func(s map[uint32]bool, pc uint32, pos int) bool {
		if s[pc] {
			return false
		}
		s[pc] = true
		in := p.Inst[pc]
		switch in.Op {
		case syntax.InstMatch:
			return true
		case syntax.InstAlt, syntax.InstAltMatch:
			a := addTo(s, in.Out, pos)
			return addTo(s, in.Arg, pos) || a
		case syntax.InstCapture, syntax.InstNop:
			return addTo(s, in.Out, pos)
		case syntax.InstEmptyWidth:
			e := syntax.EmptyOp(in.Arg)
			if e&syntax.EmptyBeginText != 0 && pos != 0 {
				return false
			}
			if e&syntax.EmptyEndText != 0 && pos != n {
				return false
			}
			return addTo(s, in.Out, pos)
		}
		return false
	}
	for pos := 0; ; pos++ {
		if addTo(cur, uint32(p.Start), pos) {
			return true
		}
		// states reached earlier may have matched while being added
		if pos == n {
			return false
		}
		nx := map[uint32]bool{}
		m := false
		for pc := range cur {
			in := p.Inst[pc]
			switch in.Op {
			case syntax.InstRune, syntax.InstRune1, syntax.InstRuneAny, syntax.InstRuneAnyNotNL:
				ok := pos >= len(pre)
				if !ok {
					ok = in.MatchRune(rune(pre[pos]))
				}
				if ok && addTo(nx, in.Out, pos+1) {
					m = true
				}
			}
		}
		if m {
			return true
		}
		cur = nx
	}
}

type classified struct {
	st   *State
	rep  []byte
	dead bool // no match, whatever follows
}

func (ex *Exec) classify(st *State, r *regexVal, s *Term, n int64) []classified {
	c := ex.c
	var out []classified
	var rec func(st *State, rep []byte)
	rec = func(st *State, rep []byte) {
		if !r.canMatch(rep, int(n)) {
			out = append(out, classified{st, rep, true})
			return
		}
		i := len(rep)
		if int64(i) == n {
			out = append(out, classified{st, rep, false})
			return
		}
		b := c.Nth(s, c.Int(int64(i)))
		for _, iv := range r.ivs {
			cond := c.And(c.Le(c.Int(int64(iv[0])), b), c.Le(b, c.Int(int64(iv[1]))))
			cond = ex.simp(st, cond)
			if cond.isFalse() {
				continue
			}
			s2 := st.clone()
			if !cond.isTrue() && (!ex.assume(s2, cond) || !ex.feasible(s2, false)) {
				continue
			}
			if iv[0] >= 128 && !r.ascii {
				unsup("regular expression on a text that may not be ASCII")
			}
			rp := byte(iv[0])
			if rp >= 128 {
				rp = 0xff
			}
			rec(s2, append(rep[:len(rep):len(rep)], rp))
		}
	}
	rec(st, nil)
	return out
}

func (ex *Exec) regexOf(st *State, v Val) *regexVal {
	if p, ok := v.(Ptr); ok {
		if r, ok := st.heap.get(p.obj).v.(*regexVal); ok {
			return r
		}
	}
	unsup("unknown regular expression")
	return nil
}

// fixedStr is the term of a string of known length.
func (ex *Exec) fixedStr(v Val) (*Term, int64) {
	t, ok := v.(*Term)
	if !ok {
		unsup("regular expression on %T", v)
	}
	if s, ok := strOf(v); ok {
		t = ex.c.Lit(s)
	}
	n, ok := ex.c.Len(t).constInt()
	if !ok {
		unsup("text of unknown length (add a //govc:len directive)")
	}
	return t, n
}

func (ex *Exec) strList(st *State, ts []Val, elem types.Type) Slice {
	n := ex.c.Int(int64(len(ts)))
	return Slice{obj: ex.newObj(st, nil, &Array{elem: elem, e: ts}, "strings"), off: ex.c.Int(0), len: n, cap: n, elem: elem, isnil: ex.c.Bool(false)}
}

func init() {
	str := types.Typ[types.String]
	group := func(ex *Exec, s *Term, loc []int, g int) Val {
		if loc[2*g] < 0 {
			return ex.c.Lit("")
		}
		return ex.c.Sub3(s, ex.c.Int(int64(loc[2*g])), ex.c.Int(int64(loc[2*g+1]-loc[2*g])))
	}
	compile := func(must bool) func(*Exec, *State, *callCtx, []Val) []outcome {
		return func(ex *Exec, st *State, cc *callCtx, args []Val) []outcome {
			p, ok := strOf(args[0])
			if !ok {
				unsup("regular expression that is not a constant")
			}
			r, err := newRegexVal(p)
			if err != nil {
				if must {
					ex.oblige(st, "panic", "regular expression compiles", cc.in.Pos(), ex.c.Bool(false))
					return nil
				}
				unsup("bad regular expression %q", p)
			}
			v := Ptr{obj: ex.newObj(st, nil, r, "regexp")}
			if must {
				return ret(st, v)
			}
			return ret(st, v, Iface{})
		}
	}
	natives["regexp.MustCompile"] = compile(true)
	natives["regexp.Compile"] = compile(false)
	natives["(*regexp.Regexp).MatchString"] = func(ex *Exec, st *State, cc *callCtx, args []Val) []outcome {
		r := ex.regexOf(st, args[0])
		s, n := ex.fixedStr(args[1])
		var outs []outcome
		for _, k := range ex.classify(st, r, s, n) {
			outs = append(outs, outcome{k.st, []Val{ex.c.Bool(!k.dead && r.re.Match(k.rep))}})
		}
		return outs
	}
	natives["(*regexp.Regexp).FindStringSubmatch"] = func(ex *Exec, st *State, cc *callCtx, args []Val) []outcome {
		r := ex.regexOf(st, args[0])
		s, n := ex.fixedStr(args[1])
		var outs []outcome
		for _, k := range ex.classify(st, r, s, n) {
			var loc []int
			if !k.dead {
				loc = r.re.FindSubmatchIndex(k.rep)
			}
			if loc == nil {
				outs = append(outs, outcome{k.st, []Val{ex.nilSlice(str)}})
				continue
			}
			var vs []Val
			for g := 0; g < len(loc)/2; g++ {
				vs = append(vs, group(ex, s, loc, g))
			}
			outs = append(outs, outcome{k.st, []Val{ex.strList(k.st, vs, str)}})
		}
		return outs
	}
	natives["(*regexp.Regexp).FindAllStringSubmatch"] = func(ex *Exec, st *State, cc *callCtx, args []Val) []outcome {
		r := ex.regexOf(st, args[0])
		s, n := ex.fixedStr(args[1])
		lim, ok := args[2].(*Term).constInt()
		if !ok {
			unsup("symbolic number of matches")
		}
		ss := types.NewSlice(str)
		var outs []outcome
		for _, k := range ex.classify(st, r, s, n) {
			var locs [][]int
			if !k.dead {
				locs = r.re.FindAllSubmatchIndex(k.rep, int(lim))
			}
			if locs == nil {
				outs = append(outs, outcome{k.st, []Val{ex.nilSlice(ss)}})
				continue
			}
			var ls []Val
			for _, loc := range locs {
				var vs []Val
				for g := 0; g < len(loc)/2; g++ {
					vs = append(vs, group(ex, s, loc, g))
				}
				ls = append(ls, ex.strList(k.st, vs, str))
			}
			outs = append(outs, outcome{k.st, []Val{ex.strList(k.st, ls, ss)}})
		}
		return outs
	}
	natives["(*regexp.Regexp).SubexpNames"] = func(ex *Exec, st *State, cc *callCtx, args []Val) []outcome {
		var vs []Val
		for _, n := range ex.regexOf(st, args[0]).re.SubexpNames() {
			vs = append(vs, ex.strConst(n))
		}
		return ret(st, ex.strList(st, vs, str))
	}
	replace := func(all bool) func(*Exec, *State, *callCtx, []Val) []outcome {
		return func(ex *Exec, st *State, cc *callCtx, args []Val) []outcome {
			c := ex.c
			old, ok1 := strOf(args[1])
			nw, ok2 := strOf(args[2])
			cnt := int64(-1)
			if !all {
				var ok bool
				if cnt, ok = args[3].(*Term).constInt(); !ok {
					unsup("symbolic number of replacements")
				}
			}
			if s, ok := strOf(args[0]); ok && ok1 && ok2 {
				return ret(st, ex.strConst(strings.Replace(s, old, nw, int(cnt))))
			}
			if !ok1 || !ok2 || len(old) != 1 || old[0] >= utf8.RuneSelf {
				unsup("strings.Replace of a text that is not one character")
			}
			s, n := ex.fixedStr(args[0])
			var outs []outcome
			var rec func(st *State, i, left int64, ps []*Term)
			rec = func(st *State, i, left int64, ps []*Term) {
				if i == n || left == 0 {
					ps = append(ps[:len(ps):len(ps)], c.Sub3(s, c.Int(i), c.Int(n-i)))
					outs = append(outs, outcome{st, []Val{c.Cat(append([]*Term{c.Lit("")}, ps...)...)}})
					return
				}
				b := c.Nth(s, c.Int(i))
				eq := ex.simp(st, c.Eq(b, c.Int(int64(old[0]))))
				if !eq.isFalse() {
					s2 := st.clone()
					if ex.assume(s2, eq) && ex.feasible(s2, false) {
						rec(s2, i+1, left-1, append(ps[:len(ps):len(ps)], c.Lit(nw)))
					}
				}
				if !eq.isTrue() {
					s2 := st.clone()
					if ex.assume(s2, c.Not(eq)) && ex.feasible(s2, false) {
						rec(s2, i+1, left, append(ps[:len(ps):len(ps)], c.Sub3(s, c.Int(i), c.Int(1))))
					}
				}
			}
			rec(st, 0, cnt, nil)
			return outs
		}
	}
	natives["strings.Replace"] = replace(false)
	natives["strings.ReplaceAll"] = replace(true)
	natives["(*math/big.Int).SetString"] = func(ex *Exec, st *State, cc *callCtx, args []Val) []outcome {
		s, ok := strOf(args[1])
		b, ok2 := args[2].(*Term).constInt()
		if !ok || !ok2 {
			unsup("big.Int.SetString of an unknown text")
		}
		v, ok := new(big.Int).SetString(s, int(b))
		if !ok {
			unsup("big.Int.SetString of %q", s)
		}
		ex.bigSet(st, args[0], ex.c.Big(v))
		return ret(st, args[0], ex.c.Bool(true))
	}
	natives["github.com/ericlagergren/decimal.Round34"] = func(ex *Exec, st *State, cc *callCtx, args []Val) []outcome {
		// a number of up to 34 digits, or a number of more digits of the same sign
		c := ex.c
		v := ex.bigVal(st, args[0])
		lim := new(big.Int).Exp(big.NewInt(10), big.NewInt(34), nil)
		pos, neg := c.Le(c.Big(lim), v), c.Le(v, c.Big(new(big.Int).Neg(lim)))
		u := c.UF("round34", "Int", v)
		c.Fact(u, c.Or(c.Not(pos), c.Le(c.Big(lim), u)))
		c.Fact(u, c.Or(c.Not(neg), c.Le(u, c.Big(new(big.Int).Neg(lim)))))
		r := c.Ite(c.Or(pos, neg), u, v)
		p := ex.bigNew(st, cc.fn.Signature.Results().At(0).Type().(*types.Pointer).Elem(), r)
		return ret(st, p)
	}
	natives["internal/stringslite.Clone"] = func(ex *Exec, st *State, cc *callCtx, args []Val) []outcome {
		return ret(st, args[0])
	}
}
