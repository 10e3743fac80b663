package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type task struct {
	ct   *Contract
	kase map[string]int64
	desc string
}

type taskResult struct {
	task    task
	ex      *Exec
	obls    []*Oblig
	unsup   string
	crash   string
	ends    int
	vacuous bool
	dur     time.Duration
}

func (t task) name() string {
	if t.desc == "" {
		return t.ct.Name
	}
	return t.ct.Name + "[" + t.desc + "]"
}

// expand makes one task per combination of the declared lengths.
func (e *Engine) expand(ct *Contract) []task {
	ts := []task{{ct: ct, kase: map[string]int64{}}}
	for _, l := range ct.lens {
		var nx []task
		for _, t := range ts {
			for _, v := range l.vals {
				k := map[string]int64{}
				for a, b := range t.kase {
					k[a] = b
				}
				k[l.name] = v
				d := t.desc
				if d != "" {
					d += ","
				}
				nx = append(nx, task{ct: ct, kase: k, desc: d + fmt.Sprintf("len(%s)=%d", l.name, v)})
			}
		}
		ts = nx
	}
	return ts
}

// generate runs one contract symbolically and returns its obligations.
func (e *Engine) generate(t task) (res *taskResult) {
	res = &taskResult{task: t}
	t0 := time.Now()
	ct := t.ct
	ex := &Exec{c: newCtx(), e: e, bv: ct.bv, opaque: ct.opaque, merge: ct.merge, globals: map[*ssa.Global]int{},
		inits: map[*ssa.Package]bool{}, unroll: ct.unroll, maxMake: ct.maxMake, notes: map[string]bool{}, externs: map[string]bool{},
		inlined: map[string]bool{}, modular: map[string]bool{}, tables: map[int]string{}, root: ct, target: ct.target,
		noPrune: ct.noPrune, caseConst: t.kase, fset: e.fset, bigTabs: map[*Term]*constTable{}}
	res.ex = ex
	for _, u := range ct.uses {
		m, ok := e.optModels[ct.pkg.Pkg.Path()+"."+u]
		if !ok { // of another package, if there is only one of that name
			n := 0
			for k, x := range e.optModels {
				if strings.HasSuffix(k, "."+u) {
					m, n = x, n+1
				}
			}
			ok = n == 1
		}
		if !ok {
			res.unsup = "no model " + u
			return
		}
		if ex.models == nil {
			ex.models = map[string]*ssa.Function{}
		}
		ex.models[m.target] = m.fn
	}
	if ct.canon {
		ex.c.canonInit()
	}
	defer func() {
		res.dur = time.Since(t0)
		if r := recover(); r != nil {
			if u, ok := r.(unsupported); ok {
				where := ""
				if len(ex.callStack) > 0 {
					where = " in " + ex.callStack[len(ex.callStack)-1].String()
				}
				res.unsup = u.msg + where + " near " + ex.posStr(ex.curPos)
				if *verbose && os.Getenv("GOVC_DEBUG") != "" {
					res.unsup += "\n" + string(debug.Stack())
				}
				return
			}
			res.crash = fmt.Sprint(r) + "\n" + string(debug.Stack())
		}
	}()
	st := &State{heap: newHeap(), bd: bounds{}, counts: map[*ssa.BasicBlock]int{}, mod: map[int]bool{}, ret: map[*ssa.Function][]Val{}}
	ex.prepGlobals(st, []*ssa.Package{ct.pkg})
	ex.externs = map[string]bool{}
	ex.inlined = map[string]bool{}
	var args []Val
	for _, p := range ct.fn.Params {
		v := ex.fresh(st, p.Type(), p.Name())
		args = append(args, v)
		ex.inputs = append(ex.inputs, inputVal{name: p.Name(), v: v, t: p.Type()})
	}
	base := st.clone()
	for i := range ex.inputs {
		ex.inputs[i].st = base
	}
	outs := ex.callFn(st, ct.fn, args, nil)
	res.ends = len(outs)
	for _, o := range outs {
		ex.frameCheck(base, o.st)
	}
	// vacuity: some path reaches the end of the contract
	reach := false
	for _, o := range outs {
		if len(o.st.pc) == 0 || ex.feasible(o.st, true) {
			reach = true
			break
		}
	}
	res.vacuous = !reach
	res.obls = ex.obls
	return
}

// frameCheck: memory the caller can see changes only where the contract says so.
func (ex *Exec) frameCheck(base, end *State) {
	var keys []int
	for k := range end.heap.m {
		keys = append(keys, k)
	}
	sort.Ints(keys)
	for _, k := range keys {
		b := base.heap.get(k)
		n := end.heap.m[k]
		if b == nil || b == n || end.mod[k] {
			continue
		}
		eq := ex.frameEq(ex.deref(base, b.v), ex.deref(end, n.v))
		ex.callStack = append(ex.callStack, ex.root.fn)
		ex.oblige(end.clone(), "frame", "unchanged: "+b.name, 0, eq)
		ex.callStack = ex.callStack[:len(ex.callStack)-1]
	}
}

func (ex *Exec) frameEq(a, b Val) *Term {
	c := ex.c
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		if !ok || x.sort != y.sort {
			return c.Bool(false)
		}
		return c.Eq(x, y)
	case MathInt:
		if y, ok := b.(MathInt); ok {
			return c.Eq(x.t, y.t)
		}
	case *Struct:
		y, ok := b.(*Struct)
		if !ok || len(x.f) != len(y.f) {
			return c.Bool(false)
		}
		var cs []*Term
		for i := range x.f {
			cs = append(cs, ex.frameEq(x.f[i], y.f[i]))
		}
		return c.And(cs...)
	case *Array:
		y, ok := b.(*Array)
		if !ok || len(x.e) != len(y.e) {
			return c.Bool(false)
		}
		var cs []*Term
		for i := range x.e {
			cs = append(cs, ex.frameEq(x.e[i], y.e[i]))
		}
		return c.And(cs...)
	case *SoA:
		y, ok := b.(*SoA)
		if !ok {
			return c.Bool(false)
		}
		cs := []*Term{c.Eq(x.n, y.n)}
		for i := range x.leaves {
			cs = append(cs, c.Eq(x.leaves[i], y.leaves[i]))
		}
		return c.And(cs...)
	case Slice:
		y, ok := b.(Slice)
		if !ok || x.obj != y.obj {
			return c.Bool(false)
		}
		return c.And(c.Eq(x.off, y.off), c.Eq(x.len, y.len), c.Eq(x.cap, y.cap))
	case Iface:
		y, ok := b.(Iface)
		if !ok || x.sym != y.sym {
			return c.Bool(false)
		}
		if x.sym {
			return c.And(c.Eq(x.isnil, y.isnil), c.Eq(x.id, y.id))
		}
		if x.typ == nil || y.typ == nil {
			return c.Bool(x.typ == nil && y.typ == nil)
		}
		if !types.Identical(x.typ, y.typ) {
			return c.Bool(false)
		}
		return ex.frameEq(x.v, y.v)
	case Ptr:
		y, ok := b.(Ptr)
		return c.Bool(ok && x.obj == y.obj && len(x.path) == len(y.path))
	case MapV:
		y, ok := b.(MapV)
		return c.Bool(ok && x == y)
	case Func:
		y, ok := b.(Func)
		return c.Bool(ok && x.fn == y.fn)
	case *MapObj:
		y, ok := b.(*MapObj)
		if !ok || len(x.keys) != len(y.keys) {
			return c.Bool(false)
		}
		return c.Bool(x == y)
	case *StrVec:
		y, ok := b.(*StrVec)
		if !ok || len(x.b) != len(y.b) {
			return c.Bool(false)
		}
		var cs []*Term
		for i := range x.b {
			cs = append(cs, c.Eq(x.b[i], y.b[i]))
		}
		return c.And(cs...)
	case Poison:
		return c.Bool(true)
	}
	return c.Bool(false)
}

var jobSem = make(chan struct{}, 16)

var defaultPortfolio = []string{"cvc5", "z3-new", "z3"}

// discharge decides every obligation of a result.
func (e *Engine) discharge(r *taskResult, timeout int) {
	var open []*Oblig
	for _, o := range r.obls {
		if o.Status == "" {
			open = append(open, o)
		}
	}
	names := r.task.ct.solvers
	if len(names) == 0 {
		names = defaultPortfolio
	}
	// render sequentially (the context is not concurrent), solve in parallel
	type job struct {
		o *Oblig
		q string
	}
	var wg sync.WaitGroup
	seen := map[string]*Oblig{}
	var dups [][2]*Oblig
	for _, o := range open {
		q := r.ex.c.query(o.pc, r.ex.c.Not(o.goal), nil, "std")
		h := hashStr(q)
		if p, ok := seen[h]; ok {
			dups = append(dups, [2]*Oblig{o, p})
			continue
		}
		seen[h] = o
		j := job{o, q}
		wg.Add(1)
		go func() {
			defer wg.Done()
			jobSem <- struct{}{}
			defer func() { <-jobSem }()
			if atomic.LoadInt32(&e.bad) >= 12 || time.Now().After(e.deadline) {
				j.o.Status = "undecided"
				j.o.Out = "not attempted: others failed already, or out of time"
				return
			}
			// a quick attempt with one solver first, then the portfolio
			res := runPortfolio(j.q, names[:1], minInt(4, timeout))
			if res.verdict == "unknown" {
				res = runPortfolio(j.q, names, timeout)
			}
			j.o.Solver, j.o.Dur, j.o.Out = res.solver, res.dur.Seconds(), res.out
			switch res.verdict {
			case "unsat":
				j.o.Status = "discharged"
			case "sat":
				j.o.Status = "failed"
			default:
				j.o.Status = "undecided"
			}
			if j.o.Status != "discharged" {
				atomic.AddInt32(&e.bad, 1)
			}
		}()
	}
	wg.Wait()
	for _, d := range dups {
		d[0].Status, d[0].Solver, d[0].Out = d[1].Status, d[1].Solver, d[1].Out
	}
}

func minInt(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func (r *taskResult) ok() bool {
	if r.unsup != "" || r.crash != "" || r.vacuous || len(r.obls) == 0 {
		return false
	}
	for _, o := range r.obls {
		if o.Status != "discharged" {
			return false
		}
	}
	return true
}

func (r *taskResult) why() string {
	switch {
	case r.unsup != "":
		return "outside the verifier's subset: " + r.unsup
	case r.crash != "":
		return "verifier error: " + r.crash
	case r.vacuous:
		return "vacuous: no input satisfies the precondition and reaches the end"
	case len(r.obls) == 0:
		return "no obligations generated"
	}
	var ss []string
	for _, o := range r.obls {
		if o.Status != "discharged" {
			ss = append(ss, fmt.Sprintf("%s %s: %s [%s] (in %s at %s)", o.Kind, o.Status, o.Name, o.Solver, o.Func, o.Pos))
		}
	}
	if len(ss) > 6 {
		ss = append(ss[:6], fmt.Sprintf("... %d more", len(ss)-6))
	}
	return strings.Join(ss, "; ")
}

func (e *Engine) runTasks(ts []task) []*taskResult {
	out := make([]*taskResult, len(ts))
	sem := make(chan struct{}, 8)
	var wg sync.WaitGroup
	for i, t := range ts {
		wg.Add(1)
		go func(i int, t task) {
			defer wg.Done()
			sem <- struct{}{}
			if os.Getenv("GOVC_RUNONLY") != "" { // development: only the concrete runs
				<-sem
				out[i] = &taskResult{task: t, unsup: "not attempted"}
				return
			}
			r := e.generate(t)
			<-sem
			if r.unsup == "" && r.crash == "" {
				e.discharge(r, t.ct.timeout)
			}
			out[i] = r
			if *verbose {
				st := "ok"
				if !r.ok() {
					st = "FAIL " + r.why()
				}
				fmt.Printf("  %-50s %4d obligations %3d ends gen %.1fs total %s\n", t.name(), len(r.obls), r.ends, r.dur.Seconds(), st)
			}
		}(i, t)
	}
	wg.Wait()
	return out
}

func (e *Engine) check(prop string) int {
	limit := time.Duration(*budget) * time.Second
	e.deadline = e.start.Add(limit)
	// contracts of the property, and the helper contracts they may rely on
	var main, helpers []*Contract
	for _, c := range e.contracts {
		if c.model {
			continue
		}
		if *only != "" && !strings.Contains(c.Name, *only) {
			continue
		}
		if c.thorough && e.tier != "thorough" {
			continue
		}
		if c.props[prop] {
			main = append(main, c)
		} else if c.helper {
			helpers = append(helpers, c)
		}
	}
	var ts []task
	for _, c := range main {
		ts = append(ts, e.expand(c)...)
	}
	results := e.runTasks(ts)
	// helper contracts that were used must themselves be verified
	verified := map[string]bool{}
	for _, c := range main {
		verified[c.Name] = true
	}
	for {
		used := map[string]bool{}
		for _, r := range results {
			if r.ex != nil {
				for m := range r.ex.modular {
					used[m] = true
				}
			}
		}
		var nt []task
		for _, c := range e.contracts {
			if used[c.Name] && !verified[c.Name] {
				verified[c.Name] = true
				nt = append(nt, e.expand(c)...)
			}
		}
		if len(nt) == 0 {
			break
		}
		results = append(results, e.runTasks(nt)...)
	}
	// a helper that no longer verifies is not relied on: its users are redone with the body
	redo := false
	for _, r := range results {
		if !r.ok() && r.task.ct.helper && !r.task.ct.failed {
			r.task.ct.failed = true
			r.task.ct.failWhy = r.why()
			redo = true
		}
	}
	if redo {
		var keep []*taskResult
		var nt []task
		for _, r := range results {
			if r.task.ct.failed && !r.task.ct.props[prop] {
				continue
			}
			uses := false
			if r.ex != nil {
				for m := range r.ex.modular {
					for _, c := range e.contracts {
						if c.Name == m && c.failed {
							uses = true
						}
					}
				}
			}
			if uses && r.ok() || uses {
				nt = append(nt, r.task)
			} else {
				keep = append(keep, r)
			}
		}
		results = append(keep, e.runTasks(nt)...)
	}
	// a second, longer attempt at what is merely undecided
	for _, r := range results {
		und := false
		for _, o := range r.obls {
			if o.Status == "undecided" {
				und = true
				o.Status = ""
			}
		}
		if und && time.Until(e.deadline) > 60*time.Second {
			e.discharge(r, r.task.ct.timeout*3)
		} else if und {
			for _, o := range r.obls {
				if o.Status == "" {
					o.Status = "undecided"
				}
			}
		}
	}
	return e.finish(prop, results)
}

// prefixDrop lists contract declarations that no longer type-check.
func (e *Engine) droppedFor() []string { return e.dropped }

func relPath(p string) string {
	if r, err := filepath.Rel(*verif, p); err == nil && !strings.HasPrefix(r, "..") {
		return r
	}
	return p
}
