package main

// SMT-LIB printing and the solver portfolio.

import (
	"bytes"
	"context"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

func smtSort(s string) string {
	switch {
	case isBV(s):
		return fmt.Sprintf("(_ BitVec %d)", bvw(s))
	case s == "Seq":
		return "(Seq Int)"
	case strings.HasPrefix(s, "Arr:"):
		return "(Array Int " + smtSort(s[4:]) + ")"
	}
	return s
}

func smtInt(v *big.Int) string {
	if v.Sign() < 0 {
		return "(- " + new(big.Int).Neg(v).String() + ")"
	}
	return v.String()
}

func smtLit(s string) string {
	if s == "" {
		return "(as seq.empty (Seq Int))"
	}
	if len(s) == 1 {
		return fmt.Sprintf("(seq.unit %d)", s[0])
	}
	var b strings.Builder
	b.WriteString("(seq.++")
	for i := 0; i < len(s); i++ {
		fmt.Fprintf(&b, " (seq.unit %d)", s[i])
	}
	b.WriteString(")")
	return b.String()
}

func smtTerm(t *Term, dialect string) string {
	p := &printer{dialect: dialect, names: map[*Term]string{}}
	return p.str(t)
}

type printer struct {
	dialect string
	names   map[*Term]string
	out     strings.Builder
}

func (p *printer) str(t *Term) string {
	if n, ok := p.names[t]; ok {
		return n
	}
	return p.body(t)
}

func (p *printer) body(t *Term) string {
	switch t.op {
	case "true", "false":
		return t.op
	case "int":
		return smtInt(t.num)
	case "bv":
		return fmt.Sprintf("(_ bv%s %d)", t.num.String(), bvw(t.sort))
	case "lit":
		return smtLit(t.str)
	case "strlit":
		return fmt.Sprintf("sl!%d", t.id)
	case "constarr":
		return fmt.Sprintf("((as const %s) %s)", smtSort(t.sort), p.str(t.args[0]))
	case "var":
		return t.str
	case "uf":
		return p.app(t.str, t.args)
	case "unit":
		return p.app("seq.unit", t.args)
	case "len":
		return p.app("seq.len", t.args)
	case "sub":
		return p.app("seq.extract", t.args)
	case "nth":
		return p.app("seq.nth", t.args)
	case "++":
		return p.app("seq.++", t.args)
	case "prefixof":
		return p.app("seq.prefixof", t.args)
	case "contains":
		return p.app("seq.contains", t.args)
	case "extract":
		h, l := exIdx(t)
		return fmt.Sprintf("((_ extract %d %d) %s)", h, l, p.str(t.args[0]))
	case "sext":
		return fmt.Sprintf("((_ sign_extend %d) %s)", bvw(t.sort)-bvw(t.args[0].sort), p.str(t.args[0]))
	case "concat":
		r := p.str(t.args[len(t.args)-1])
		for i := len(t.args) - 2; i >= 0; i-- {
			r = "(concat " + p.str(t.args[i]) + " " + r + ")"
		}
		return r
	case "xor1":
		r := p.str(t.args[len(t.args)-1])
		for i := len(t.args) - 2; i >= 0; i-- {
			r = "(bvxor " + p.str(t.args[i]) + " " + r + ")"
		}
		if t.str == "1" {
			r = "(bvnot " + r + ")"
		}
		return r
	case "forall", "exists":
		var b strings.Builder
		b.WriteString("(" + t.op + " (")
		n := len(t.args) - 1
		for _, v := range t.args[:n] {
			b.WriteString("(" + v.str + " " + smtSort(v.sort) + ")")
		}
		b.WriteString(") " + p.str(t.args[n]) + ")")
		return b.String()
	}
	return p.app(t.op, t.args)
}

func (p *printer) app(f string, as []*Term) string {
	var b strings.Builder
	b.WriteString("(" + f)
	for _, a := range as {
		b.WriteByte(' ')
		b.WriteString(p.str(a))
	}
	b.WriteByte(')')
	return b.String()
}

// query renders: assumptions hold and goal is false.  getvals: terms to read
// from a model.
func (c *Ctx) query(assume []*Term, negGoal *Term, getvals []*Term, dialect string) string {
	if c.cs != nil {
		assume = append(append([]*Term(nil), assume...), c.xorSums(append(append([]*Term(nil), assume...), negGoal))...)
	}
	// collect
	seen := map[*Term]bool{}
	cnt := map[*Term]int{}
	var order []*Term
	var roots []*Term
	var visit func(t *Term)
	visit = func(t *Term) {
		cnt[t]++
		if seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.args {
			visit(a)
		}
		order = append(order, t)
	}
	addRoot := func(t *Term) { roots = append(roots, t); visit(t) }
	for _, a := range assume {
		addRoot(a)
	}
	addRoot(negGoal)
	for _, g := range getvals {
		visit(g)
		cnt[g]++
	}
	// close under facts
	var facts []*Term
	doneF := map[*Term]bool{}
	for i := 0; i < len(order); i++ {
		t := order[i]
		for _, f := range c.facts[t] {
			if !doneF[f] && !f.hasBound {
				doneF[f] = true
				facts = append(facts, f)
				visit(f)
			}
		}
	}
	// global axioms: those whose function symbols all occur
	syms := map[string]bool{}
	collect := func(from int) {
		for _, t := range order[from:] {
			if t.op == "uf" || t.op == "var" {
				syms[t.str] = true
			}
		}
	}
	collect(0)
	used := map[*Term]bool{}
	for ch := true; ch; {
		ch = false
		for _, ax := range c.axioms {
			if used[ax] {
				continue
			}
			ok := false
			for _, s := range axSyms(ax) {
				if syms[s] {
					ok = true
				}
			}
			if ok {
				used[ax] = true
				ch = true
				from := len(order)
				facts = append(facts, ax)
				visit(ax)
				collect(from)
				for i := from; i < len(order); i++ {
					for _, f := range c.facts[order[i]] {
						if !doneF[f] && !f.hasBound {
							doneF[f] = true
							facts = append(facts, f)
							visit(f)
						}
					}
				}
			}
		}
	}
	var b strings.Builder
	b.WriteString("(set-logic ALL)\n")
	if len(getvals) > 0 {
		b.WriteString("(set-option :produce-models true)\n")
	}
	// declarations
	bound := map[*Term]bool{}
	for _, t := range order {
		if t.op == "forall" || t.op == "exists" {
			for _, v := range t.args[:len(t.args)-1] {
				bound[v] = true
			}
		}
	}
	sorts := map[string]bool{}
	declSort := func(s string) {
		for strings.HasPrefix(s, "Arr:") {
			s = s[4:]
		}
		switch {
		case s == "Int", s == "Bool", s == "Seq", isBV(s):
		default:
			if !sorts[s] {
				sorts[s] = true
				fmt.Fprintf(&b, "(declare-sort %s 0)\n", s)
			}
		}
	}
	for _, t := range order {
		declSort(t.sort)
	}
	decl := map[string]bool{}
	var ranges []string
	var slits []string
	for _, t := range order {
		switch t.op {
		case "strlit":
			n := fmt.Sprintf("sl!%d", t.id)
			slits = append(slits, n)
			fmt.Fprintf(&b, "(declare-fun %s () Str)\n", n)
		case "var":
			if !bound[t] && !decl[t.str] {
				decl[t.str] = true
				fmt.Fprintf(&b, "(declare-fun %s () %s)\n", t.str, smtSort(t.sort))
			}
		case "uf":
			if !decl[t.str] {
				decl[t.str] = true
				d := c.ufs[t.str]
				var as []string
				for _, a := range d.args {
					as = append(as, smtSort(a))
				}
				fmt.Fprintf(&b, "(declare-fun %s (%s) %s)\n", t.str, strings.Join(as, " "), smtSort(d.ret))
			}
		}
	}
	p := &printer{dialect: dialect, names: map[*Term]string{}}
	for _, t := range order {
		if cnt[t] > 1 && len(t.args) > 0 && !t.hasBound && t.op != "forall" && t.op != "exists" {
			body := p.body(t)
			if len(body) > 12 {
				n := fmt.Sprintf("d!%d", t.id)
				fmt.Fprintf(&b, "(define-fun %s () %s %s)\n", n, smtSort(t.sort), body)
				p.names[t] = n
			}
		}
	}
	for _, t := range order {
		if t.hasBound {
			continue
		}
		switch {
		case t.sort == "Int" && (t.lo != nil || t.hi != nil) && (t.op == "var" || t.op == "uf" || t.op == "select"):
			if t.lo != nil {
				ranges = append(ranges, fmt.Sprintf("(<= %s %s)", smtInt(t.lo), p.str(t)))
			}
			if t.hi != nil {
				ranges = append(ranges, fmt.Sprintf("(<= %s %s)", p.str(t), smtInt(t.hi)))
			}
		case t.sort == "Arr:Int" && (t.op == "var" || t.op == "uf") && (t.lo != nil || t.hi != nil):
			lo, hi := "", ""
			if t.lo != nil {
				lo = fmt.Sprintf("(<= %s (select %s i))", smtInt(t.lo), p.str(t))
			}
			if t.hi != nil {
				hi = fmt.Sprintf("(<= (select %s i) %s)", p.str(t), smtInt(t.hi))
			}
			ranges = append(ranges, fmt.Sprintf("(forall ((i Int)) (! (and true %s %s) :pattern ((select %s i))))", lo, hi, p.str(t)))
		case t.op == "len":
			ranges = append(ranges, fmt.Sprintf("(<= %s %s)", p.str(t), maxLen.String()))
		}
	}
	if len(slits) > 1 {
		b.WriteString("(assert (distinct " + strings.Join(slits, " ") + "))\n")
	}
	for _, r := range ranges {
		b.WriteString("(assert " + r + ")\n")
	}
	for _, f := range facts {
		b.WriteString("(assert " + p.str(f) + ")\n")
	}
	for _, r := range roots {
		b.WriteString("(assert " + p.str(r) + ")\n")
	}
	b.WriteString("(check-sat)\n")
	if len(getvals) > 0 {
		b.WriteString("(get-value (")
		for _, g := range getvals {
			b.WriteString(p.str(g) + " ")
		}
		b.WriteString("))\n")
	}
	return b.String()
}

func axSyms(t *Term) []string {
	m := map[string]bool{}
	bound := map[*Term]bool{}
	var f func(x *Term)
	seen := map[*Term]bool{}
	f = func(x *Term) {
		if seen[x] {
			return
		}
		seen[x] = true
		if x.op == "forall" || x.op == "exists" {
			for _, v := range x.args[:len(x.args)-1] {
				bound[v] = true
			}
		}
		if x.op == "uf" {
			m[x.str] = true
		}
		for _, a := range x.args {
			f(a)
		}
	}
	f(t)
	var out []string
	for s := range m {
		out = append(out, s)
	}
	sort.Strings(out)
	return out
}

// ---- solvers

type solverResult struct {
	verdict string // unsat sat unknown
	solver  string
	out     string
	dur     time.Duration
}

type solverCmd struct {
	name string
	args func(file string, sec int) []string
}

var solvers = []solverCmd{
	{"cvc5", func(f string, s int) []string {
		return []string{"cvc5", "--lang=smt2.6", "--strings-exp", fmt.Sprintf("--tlimit=%d", s*1000), f}
	}},
	{"z3-new", func(f string, s int) []string {
		return []string{"z3-new", fmt.Sprintf("-T:%d", s), f}
	}},
	{"z3", func(f string, s int) []string {
		return []string{"z3", fmt.Sprintf("-T:%d", s), f}
	}},
	{"cvc5-nl", func(f string, s int) []string {
		return []string{"cvc5", "--lang=smt2.6", "--nl-ext-tplanes", "--strings-exp", "--full-saturate-quant", fmt.Sprintf("--tlimit=%d", s*1000), f}
	}},
}

var (
	solverSem   chan struct{}
	workDir     string
	querySeq    int64
	solverMu    sync.Mutex
	solverTime  = map[string]time.Duration{}
	solverWins  = map[string]int{}
	solverCalls int64
)

// runPortfolio tries the named solvers concurrently; the first definite answer wins.
func runPortfolio(q string, names []string, sec int) solverResult {
	id := atomic.AddInt64(&querySeq, 1)
	f := filepath.Join(workDir, fmt.Sprintf("q%d.smt2", id))
	os.WriteFile(f, []byte(q), 0o644)
	if os.Getenv("GOVC_KEEP") == "" {
		defer os.Remove(f)
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	ch := make(chan solverResult, len(names))
	n := 0
	for _, nm := range names {
		var sc *solverCmd
		for i := range solvers {
			if solvers[i].name == nm {
				sc = &solvers[i]
			}
		}
		if sc == nil {
			continue
		}
		n++
		go func(sc *solverCmd) {
			select {
			case solverSem <- struct{}{}:
			case <-ctx.Done():
				ch <- solverResult{"unknown", sc.name, "cancelled", 0}
				return
			}
			defer func() { <-solverSem }()
			if ctx.Err() != nil {
				ch <- solverResult{"unknown", sc.name, "cancelled", 0}
				return
			}
			a := sc.args(f, sec)
			c2, cancel2 := context.WithTimeout(ctx, time.Duration(sec+5)*time.Second)
			defer cancel2()
			cmd := exec.CommandContext(c2, a[0], a[1:]...)
			var ob bytes.Buffer
			cmd.Stdout = &ob
			cmd.Stderr = &ob
			t0 := time.Now()
			cmd.Run()
			d := time.Since(t0)
			atomic.AddInt64(&solverCalls, 1)
			solverMu.Lock()
			solverTime[sc.name] += d
			solverMu.Unlock()
			o := ob.String()
			v := "unknown"
			first := strings.TrimSpace(strings.SplitN(o, "\n", 2)[0])
			if first == "unsat" || first == "sat" {
				v = first
			}
			ch <- solverResult{v, sc.name, o, d}
		}(sc)
	}
	var last solverResult
	last.verdict = "unknown"
	for i := 0; i < n; i++ {
		r := <-ch
		if r.verdict != "unknown" {
			cancel()
			solverMu.Lock()
			solverWins[r.solver]++
			solverMu.Unlock()
			return r
		}
		if r.out != "cancelled" {
			last.out += r.solver + ": " + trunc(strings.TrimSpace(r.out), 400) + "\n"
		}
		if r.dur > last.dur {
			last.dur = r.dur
		}
	}
	return last
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}
