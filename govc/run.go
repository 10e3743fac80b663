package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type frame struct {
	fn     *ssa.Function
	fv     []Val
	ipdom  map[*ssa.BasicBlock]*ssa.BasicBlock
	loops  map[*ssa.BasicBlock]*loopInfo
	cuts   map[*ssa.BasicBlock]*cutInfo
	params []Val
}

type env map[ssa.Value]Val

func (e env) clone() env {
	n := make(env, len(e)+8)
	for k, v := range e {
		n[k] = v
	}
	return n
}

type arrival struct {
	st       *State
	env      env
	ret      bool
	res      []Val
	prev     *ssa.BasicBlock // when stopped at the stop block
	phisDone bool            // the stop block's phis are already in env
}

// callFn executes a function body symbolically and returns its outcomes.
func (ex *Exec) callFn(st *State, fn *ssa.Function, args []Val, bind []Val) []outcome {
	if len(fn.Blocks) == 0 {
		unsup("no body and no model: %s", fn)
	}
	if st.depth > 60 {
		unsup("call depth exceeded in %s", fn)
	}
	rec := 0
	for _, f := range ex.callStack {
		if f == fn {
			rec++
		}
	}
	if rec > 12 {
		unsup("unbounded recursion in %s", fn)
	}
	ex.callStack = append(ex.callStack, fn)
	defer func() { ex.callStack = ex.callStack[:len(ex.callStack)-1] }()
	fr := &frame{fn: fn, fv: bind, params: args}
	fr.ipdom = ex.e.postdom(fn)
	fr.loops = ex.e.loopsOf(fn)
	fr.cuts = map[*ssa.BasicBlock]*cutInfo{}
	en := env{}
	for i, p := range fn.Params {
		en[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		en[p] = bind[i]
	}
	st.depth++
	base := st.clone()
	savedCounts := st.counts
	st.counts = map[*ssa.BasicBlock]int{}
	arr := ex.region(fr, st, en, fn.Blocks[0], nil, nil, false)
	var out []outcome
	for _, a := range arr {
		a.st.depth--
		a.st.counts = savedCounts
		out = append(out, outcome{a.st, a.res})
	}
	if (ex.merge || ex.pure > 0) && len(out) > 1 {
		out = ex.mergeOutcomes(base, out)
	}
	return out
}

func (ex *Exec) mergeOutcomes(base *State, outs []outcome) []outcome {
	cur := outs[len(outs)-1]
	var kept []outcome
	nb := len(base.pc)
	// fold from the end: ite(g0, r0, ite(g1, r1, ... rn))
	gs := make([]*Term, len(outs))
	for i, o := range outs {
		if len(o.st.pc) < nb {
			return outs
		}
		gs[i] = ex.c.And(o.st.pc[nb:]...)
	}
	curG := gs[len(outs)-1]
	for i := len(outs) - 2; i >= 0; i-- {
		o := outs[i]
		m, ok := ex.mergeTwo(base, gs[i], o.st, cur.st, o.res, cur.res)
		if !ok {
			kept = append(kept, o)
			continue
		}
		curG = ex.c.Or(gs[i], curG)
		m.st.pc = base.pc[:nb:nb]
		m.st.bd = base.clone().bd
		ex.assume(m.st, curG)
		cur = m
	}
	return append(kept, cur)
}

// mergeTwo merges heaps and results under guard g (g ? a : b).  The path
// condition is left to the caller.
func (ex *Exec) mergeTwo(base *State, g *Term, a, b *State, ra, rb []Val) (outcome, bool) {
	ex.inMerge++
	defer func() { ex.inMerge-- }()
	var res []Val
	for i := range ra {
		v := ex.iteVal(g, ra[i], rb[i])
		if v == nil {
			return outcome{}, false
		}
		res = append(res, v)
	}
	n := base.clone()
	n.depth = a.depth
	n.mod = a.mod
	n.ret = a.ret
	n.counts = b.counts
	n.trace = base.trace
	for _, af := range ex.assumeMode {
		x, y := a.ret[af.fn], b.ret[af.fn]
		if len(x) != len(y) || (len(x) > 0 && &x[0] != &y[0]) {
			return outcome{}, false
		}
	}
	both := func(k int) bool {
		oa, ob := a.heap.get(k), b.heap.get(k)
		if oa == nil || oa == ob {
			n.heap.set(k, ob)
			return true
		}
		if ob == nil {
			n.heap.set(k, oa)
			return true
		}
		v := ex.iteVal(g, oa.v, ob.v)
		if v == nil {
			return false
		}
		n.heap.set(k, &Obj{t: oa.t, v: v, name: oa.name, ro: oa.ro})
		return true
	}
	for k := range a.heap.m {
		if !both(k) {
			return outcome{}, false
		}
	}
	for k := range b.heap.m {
		if _, ok := a.heap.m[k]; !ok {
			if !both(k) {
				return outcome{}, false
			}
		}
	}
	return outcome{n, res}, true
}

// region executes from block b until the stop block or a return.
func (ex *Exec) region(fr *frame, st *State, en env, b, prev, stop *ssa.BasicBlock, phisDone bool) []arrival {
	for {
		if b == stop && prev != nil {
			return []arrival{{st: st, env: en, prev: prev, phisDone: phisDone}}
		}
		ex.steps++
		if ex.steps > 3000000 {
			unsup("step limit")
		}
		if ex.e.expired() {
			unsup("symbolic execution time limit")
		}
		li := fr.loops[b]
		if li != nil {
			if ci := fr.cuts[b]; ci != nil && prev != nil && li.body[prev] {
				// back edge of a cut loop: check the invariant and end the path
				ex.checkInvariant(fr, st, en, b, prev, ci, "preserved")
				return nil
			}
			if prev == nil || !li.body[prev] {
				// loop entry
				st.counts[b] = 0
				if la := ex.e.loopAnnot(fr.fn, b); la != nil {
					return ex.cutLoop(fr, st, en, b, prev, stop, la)
				}
			} else {
				st.counts[b]++
				if st.counts[b] > ex.unroll && (ex.quietInit == 0 || st.counts[b] > 4096) {
					// unwinding obligation: this path must be infeasible
					if !ex.feasible(st, true) {
						return nil
					}
					ex.oblige(st, "unwind", fmt.Sprintf("loop at %s needs no more than %d iterations (no invariant given)", ex.posStr(blockPos(b)), ex.unroll), blockPos(b), ex.c.Bool(false))
					return nil
				}
			}
		}
		// phis
		if prev != nil && !phisDone {
			ex.phis(en, b, prev)
		}
		phisDone = false
		i := 0
		for i < len(b.Instrs) {
			if _, ok := b.Instrs[i].(*ssa.Phi); ok {
				i++
				continue
			}
			break
		}
		r, ns, nb, done := ex.block(fr, st, en, b, i, stop)
		if done {
			return r
		}
		st = ns
		prev, b = b, nb
	}
}

func (ex *Exec) phis(en env, b, prev *ssa.BasicBlock) {
	pi := -1
	for i, p := range b.Preds {
		if p == prev {
			pi = i
		}
	}
	var vals []Val
	var ps []*ssa.Phi
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		ps = append(ps, p)
		vals = append(vals, ex.val(en, p.Edges[pi]))
	}
	for i, p := range ps {
		en[p] = vals[i]
	}
}

func blockPos(b *ssa.BasicBlock) token.Pos {
	for _, in := range b.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	for _, s := range b.Succs {
		for _, in := range s.Instrs {
			if in.Pos().IsValid() {
				return in.Pos()
			}
		}
	}
	return b.Parent().Pos()
}

func (ex *Exec) posStr(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	q := ex.fset.Position(p)
	return fmt.Sprintf("%s:%d", shortFile(q.Filename), q.Line)
}

// block executes instructions from index i on. Returns (arrivals, next, done).
func (ex *Exec) block(fr *frame, st *State, en env, b *ssa.BasicBlock, i int, stop *ssa.BasicBlock) ([]arrival, *State, *ssa.BasicBlock, bool) {
	for ; i < len(b.Instrs); i++ {
		in := b.Instrs[i]
		if in.Pos().IsValid() {
			ex.curPos = in.Pos()
		}
		switch x := in.(type) {
		case *ssa.Jump:
			return nil, st, b.Succs[0], false
		case *ssa.Return:
			var res []Val
			for _, r := range x.Results {
				res = append(res, ex.val(en, r))
			}
			return []arrival{{st: st, env: en, ret: true, res: res}}, st, nil, true
		case *ssa.Panic:
			ex.oblige(st, "panic", "explicit panic unreachable", x.Pos(), ex.c.Bool(false))
			return nil, nil, nil, true
		case *ssa.If:
			r, nb, done := ex.branch(fr, st, en, b, x, stop)
			return r, st, nb, done
		case *ssa.Call:
			outs := ex.call(fr, st, en, x, x.Common())
			if len(outs) == 0 {
				return nil, nil, nil, true
			}
			if len(outs) == 1 {
				st = outs[0].st
				ex.bindRes(en, x, outs[0].res)
				continue
			}
			var all []arrival
			for _, o := range outs {
				e2 := en.clone()
				ex.bindRes(e2, x, o.res)
				r, ns, nb, done := ex.block(fr, o.st, e2, b, i+1, stop)
				if !done {
					r = ex.region(fr, ns, e2, nb, b, stop, false)
				}
				all = append(all, r...)
			}
			return all, nil, nil, true
		default:
			if ex.bv {
				if t, ks, solve := ex.splitIdx(en, in); t != nil {
					var all []arrival
					if solve {
						w := bvw(ks[0].sort)
						if !ex.oblige(st, "bound", fmt.Sprintf("make: at most %d elements", ex.maxMake), in.Pos(), ex.c.BVcmp("bvult", ex.val(en, t).(*Term), ex.c.BV(big.NewInt(int64(ex.maxMake+1)), w))) {
							return nil, nil, nil, true
						}
					}
					for _, k := range ks {
						s2 := st.clone()
						if !ex.assume(s2, ex.c.Eq(ex.val(en, t).(*Term), k)) {
							continue
						}
						if solve && !ex.feasible(s2, true) {
							continue
						}
						e2 := en.clone()
						e2[t] = k
						r, ns, nb, done := ex.block(fr, s2, e2, b, i, stop)
						if !done {
							r = ex.region(fr, ns, e2, nb, b, stop, false)
						}
						all = append(all, r...)
					}
					return all, nil, nil, true
				}
			}
			sts := ex.step(fr, st, en, in)
			switch len(sts) {
			case 0:
				return nil, nil, nil, true
			case 1:
				st = sts[0].st
				if sts[0].v != nil {
					en[in.(ssa.Value)] = sts[0].v
				}
			default:
				var all []arrival
				for _, s := range sts {
					e2 := en.clone()
					if s.v != nil {
						e2[in.(ssa.Value)] = s.v
					}
					r, ns, nb, done := ex.block(fr, s.st, e2, b, i+1, stop)
					if !done {
						r = ex.region(fr, ns, e2, nb, b, stop, false)
					}
					all = append(all, r...)
				}
				return all, nil, nil, true
			}
		}
	}
	unsup("block without terminator")
	return nil, nil, nil, true
}

// splitIdx finds a slice bound or length that is one of a few constants.
func (ex *Exec) splitIdx(en env, in ssa.Instruction) (ssa.Value, []*Term, bool) {
	var vs []ssa.Value
	switch x := in.(type) {
	case *ssa.Slice:
		vs = []ssa.Value{x.Low, x.High, x.Max}
	case *ssa.MakeSlice:
		vs = []ssa.Value{x.Len, x.Cap}
	default:
		return nil, nil, false
	}
	for _, v := range vs {
		if v == nil {
			continue
		}
		if _, ok := v.(*ssa.Const); ok {
			continue
		}
		t, ok := ex.val(en, v).(*Term)
		if !ok || t.isNum() || !isBV(t.sort) {
			continue
		}
		seen := map[*Term]bool{}
		var ks []*Term
		ok = true
		var walk func(x *Term)
		walk = func(x *Term) {
			if seen[x] || !ok {
				return
			}
			seen[x] = true
			switch {
			case x.isNum():
				ks = append(ks, x)
			case x.op == "ite":
				walk(x.args[1])
				walk(x.args[2])
			default:
				ok = false
			}
		}
		walk(t)
		if ok && len(ks) <= 130 {
			return v, ks, false
		}
		if _, mk := in.(*ssa.MakeSlice); mk && ex.maxMake > 0 {
			ks = nil
			for i := 0; i <= ex.maxMake; i++ {
				ks = append(ks, ex.c.BV(big.NewInt(int64(i)), bvw(t.sort)))
			}
			return v, ks, true
		}
	}
	return nil, nil, false
}

func (ex *Exec) bindRes(en env, x *ssa.Call, res []Val) {
	switch len(res) {
	case 0:
		en[x] = Tuple{}
	case 1:
		en[x] = res[0]
	default:
		en[x] = Tuple(res)
	}
}

func (ex *Exec) branch(fr *frame, st *State, en env, b *ssa.BasicBlock, x *ssa.If, stop *ssa.BasicBlock) ([]arrival, *ssa.BasicBlock, bool) {
	cv, ok := ex.val(en, x.Cond).(*Term)
	if !ok {
		unsup("branch on %T in %s", ex.val(en, x.Cond), fr.fn)
	}
	cond := ex.simp(st, cv)
	if cond.isTrue() {
		return nil, b.Succs[0], false
	}
	if cond.isFalse() {
		return nil, b.Succs[1], false
	}
	mergeHere := ex.merge || ex.pure > 0
	if !mergeHere && ex.simpleDiamond(b, fr.ipdom[b]) {
		mergeHere = false
	}
	if debugFalse {
		fmt.Fprintln(os.Stderr, "branch", ex.posStr(x.Cond.Pos()), trunc(ex.c.Str(cond), 300))
	}
	run := func(c *Term, succ *ssa.BasicBlock, stop2 *ssa.BasicBlock) []arrival {
		s2 := st.clone()
		if !ex.assume(s2, c) {
			return nil
		}
		if ex.pure == 0 && !ex.merge && !ex.feasible(s2, false) {
			return nil
		}
		return ex.region(fr, s2, en.clone(), succ, b, stop2, false)
	}
	if !mergeHere {
		a := run(cond, b.Succs[0], stop)
		a = append(a, run(ex.c.Not(cond), b.Succs[1], stop)...)
		ex.paths++
		if len(a) > 20000 {
			unsup("too many paths in %s", fr.fn)
		}
		return a, nil, true
	}
	ip := fr.ipdom[b]
	if ip == nil {
		a := run(cond, b.Succs[0], stop)
		a = append(a, run(ex.c.Not(cond), b.Succs[1], stop)...)
		return a, nil, true
	}
	a1 := run(cond, b.Succs[0], ip)
	a2 := run(ex.c.Not(cond), b.Succs[1], ip)
	var rets, stops []arrival
	for _, a := range append(append([]arrival{}, a1...), a2...) {
		if a.ret {
			rets = append(rets, a)
		} else {
			stops = append(stops, a)
		}
	}
	if len(stops) == 0 {
		return rets, nil, true
	}
	if len(stops) > 1 && !(fr.loops[ip] != nil && fr.cuts[ip] != nil) {
		if m, ok := ex.mergeArrivals(fr, st, en, ip, cond, stops, len(rets) > 0); ok {
			stops = []arrival{m}
		}
	}
	for _, s := range stops {
		if ip == stop {
			rets = append(rets, s)
		} else {
			rets = append(rets, ex.region(fr, s.st, s.env, ip, s.prev, stop, s.phisDone)...)
		}
	}
	return rets, nil, true
}

func (ex *Exec) simpleDiamond(b, ip *ssa.BasicBlock) bool { return false }

func (ex *Exec) mergeArrivals(fr *frame, st *State, en env, ip *ssa.BasicBlock, cond *Term, stops []arrival, partial bool) (arrival, bool) {
	if li := fr.loops[ip]; li != nil {
		// all arrivals must come from the same side of the loop
		for _, s := range stops {
			if li.body[s.prev] != li.body[stops[0].prev] {
				return arrival{}, false
			}
		}
		if !li.body[stops[0].prev] && ex.e.loopAnnot(fr.fn, ip) != nil {
			return arrival{}, false
		}
	}
	var phis []*ssa.Phi
	for _, in := range ip.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
	}
	vals := func(a arrival) []Val {
		if a.phisDone {
			var vs []Val
			for _, p := range phis {
				vs = append(vs, a.env[p])
			}
			return vs
		}
		pi := -1
		for i, p := range ip.Preds {
			if p == a.prev {
				pi = i
			}
		}
		var vs []Val
		for _, p := range phis {
			vs = append(vs, ex.val(a.env, p.Edges[pi]))
		}
		return vs
	}
	nb := len(st.pc)
	cur := stops[len(stops)-1]
	curV := vals(cur)
	curSt := cur.st
	gs := make([]*Term, len(stops))
	for i, s := range stops {
		gs[i] = ex.c.And(s.st.pc[nb:]...)
	}
	curG := gs[len(stops)-1]
	for i := len(stops) - 2; i >= 0; i-- {
		g := gs[i]
		if len(stops) == 2 {
			g = cond
			if len(stops[0].st.pc) > nb && stops[0].st.pc[nb] != cond {
				g = gs[i]
			}
		}
		m, ok := ex.mergeTwo(st, g, stops[i].st, curSt, vals(stops[i]), curV)
		if !ok {
			return arrival{}, false
		}
		curG = ex.c.Or(gs[i], curG)
		curSt, curV = m.st, m.res
	}
	curSt.pc = st.pc[:nb:nb]
	curSt.bd = st.clone().bd
	curSt.counts = st.clone().counts
	if len(stops) == 2 && len(stops[0].st.pc) > nb && len(stops[1].st.pc) > nb && stops[0].st.pc[nb] == cond {
		// c -> rest0, not c -> rest1
		r0 := ex.c.And(stops[0].st.pc[nb+1:]...)
		n1 := stops[1].st.pc[nb:]
		var rest1 []*Term
		nc := ex.c.Not(cond)
		for _, t := range n1 {
			if t != nc {
				rest1 = append(rest1, t)
			}
		}
		ex.assume(curSt, ex.c.Implies(cond, r0))
		ex.assume(curSt, ex.c.Implies(nc, ex.c.And(rest1...)))
		_ = partial
		if partial {
			ex.assume(curSt, curG)
		}
	} else {
		ex.assume(curSt, curG)
	}
	en2 := en.clone()
	for i, p := range phis {
		en2[p] = curV[i]
	}
	return arrival{st: curSt, env: en2, prev: stops[0].prev, phisDone: true}, true
}

// feasible asks a solver whether the path can be taken.  hard: spend more.
func (ex *Exec) feasible(st *State, hard bool) bool {
	for _, p := range st.pc {
		if p.isFalse() {
			return false
		}
	}
	if ex.noPrune && !hard {
		return true
	}
	ex.pruneCalls++
	q := ex.c.query(st.pc, ex.c.Bool(true), nil, "z3")
	key := hashStr(q)
	if v, ok := ex.e.pruneCache(key); ok {
		return v
	}
	sec := 1
	names := []string{"cvc5"}
	if hard {
		sec = 5
		names = []string{"cvc5", "z3-new"}
	}
	r := runPortfolio(q, names, sec)
	f := r.verdict != "unsat"
	ex.e.pruneStore(key, f)
	return f
}

type stepRes struct {
	st *State
	v  Val
}

func one(st *State, v Val) []stepRes { return []stepRes{{st, v}} }

func (ex *Exec) val(en env, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return ex.constVal(x)
	case *ssa.Function:
		return Func{fn: x}
	case *ssa.Builtin:
		return Func{}
	case *ssa.Global:
		return ex.globalPtr(x)
	}
	r, ok := en[v]
	if !ok {
		unsup("undefined value %s in %s", v.Name(), v.Parent())
	}
	return r
}

func (ex *Exec) step(fr *frame, st *State, en env, in ssa.Instruction) []stepRes {
	c := ex.c
	switch x := in.(type) {
	case *ssa.DebugRef:
		return one(st, nil)
	case *ssa.Alloc:
		t := x.Type().Underlying().(*types.Pointer).Elem()
		return one(st, Ptr{obj: ex.newObj(st, t, ex.zero(t), x.Comment)})
	case *ssa.BinOp:
		return ex.binop(st, x, ex.val(en, x.X), ex.val(en, x.Y))
	case *ssa.UnOp:
		return ex.unop(st, en, x)
	case *ssa.ChangeType:
		return one(st, ex.retype(ex.val(en, x.X), x.Type()))
	case *ssa.ChangeInterface:
		return one(st, ex.val(en, x.X))
	case *ssa.Convert:
		return one(st, ex.convert(st, ex.val(en, x.X), x.X.Type(), x.Type()))
	case *ssa.MultiConvert:
		return one(st, ex.convert(st, ex.val(en, x.X), x.X.Type(), x.Type()))
	case *ssa.MakeInterface:
		return one(st, Iface{typ: x.X.Type(), v: ex.val(en, x.X)})
	case *ssa.MakeClosure:
		f := Func{fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			f.bind = append(f.bind, ex.val(en, b))
		}
		return one(st, f)
	case *ssa.MakeMap:
		mt := x.Type().Underlying().(*types.Map)
		return one(st, MapV{ex.newObj(st, nil, &MapObj{kt: mt.Key(), vt: mt.Elem()}, "map")})
	case *ssa.MapUpdate:
		return ex.mapUpdate(st, ex.val(en, x.Map), ex.val(en, x.Key), ex.val(en, x.Value))
	case *ssa.Lookup:
		return ex.lookup(st, x, ex.val(en, x.X), ex.val(en, x.Index))
	case *ssa.Range:
		m, ok := ex.val(en, x.X).(MapV)
		if !ok {
			return ex.rangeString(st, x, ex.val(en, x.X))
		}
		return one(st, Ptr{obj: ex.newObj(st, nil, MapIter{obj: m.obj}, "iter")})
	case *ssa.Next:
		return ex.next(st, x, ex.val(en, x.Iter).(Ptr))
	case *ssa.MakeSlice:
		et := x.Type().Underlying().(*types.Slice).Elem()
		n := ex.toIdx(ex.val(en, x.Len), x.Len.Type())
		cp := ex.toIdx(ex.val(en, x.Cap), x.Cap.Type())
		if !ex.oblige(st, "makeslice", "make: length within range", x.Pos(), c.And(c.Le(c.Int(0), n), c.Le(n, cp), c.Le(cp, c.Big(new(big.Int).Lsh(big.NewInt(1), 62))))) {
			return nil
		}
		return one(st, ex.makeSlice(st, et, n, cp))
	case *ssa.Slice:
		return ex.slice(st, x, en)
	case *ssa.SliceToArrayPointer:
		s := ex.val(en, x.X).(Slice)
		n := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		if !ex.oblige(st, "bounds", "slice to array conversion in range", x.Pos(), c.Le(c.Int(n), s.len)) {
			return nil
		}
		unsup("slice to array pointer")
	case *ssa.FieldAddr:
		p, ok := ex.val(en, x.X).(Ptr)
		if !ok {
			unsup("field address of %T (%v) in %s", ex.val(en, x.X), ex.val(en, x.X), fr.fn)
		}
		if p.obj == 0 {
			ex.oblige(st, "nil", "nil pointer dereference unreachable", x.Pos(), c.Bool(false))
			return nil
		}
		return one(st, Ptr{obj: p.obj, path: append(p.path[:len(p.path):len(p.path)], pel{field: x.Field})})
	case *ssa.Field:
		v := ex.val(en, x.X)
		if po, ok := v.(Poison); ok {
			return one(st, po)
		}
		s, ok := v.(*Struct)
		if !ok {
			unsup("field of %T", v)
		}
		return one(st, s.f[x.Field])
	case *ssa.IndexAddr:
		return ex.indexAddr(st, x, ex.val(en, x.X), ex.val(en, x.Index))
	case *ssa.Index:
		return ex.indexVal(st, x, ex.val(en, x.X), ex.val(en, x.Index))
	case *ssa.Store:
		p, ok := ex.val(en, x.Addr).(Ptr)
		if !ok {
			unsup("store through %T", ex.val(en, x.Addr))
		}
		if p.obj == 0 {
			ex.oblige(st, "nil", "nil pointer store unreachable", x.Pos(), c.Bool(false))
			return nil
		}
		ex.store(st, p, ex.val(en, x.Val))
		return one(st, nil)
	case *ssa.Extract:
		v := ex.val(en, x.Tuple)
		if po, ok := v.(Poison); ok {
			return one(st, po)
		}
		return one(st, v.(Tuple)[x.Index])
	case *ssa.TypeAssert:
		return ex.typeAssert(st, x, ex.val(en, x.X))
	case *ssa.RunDefers:
		return one(st, nil)
	case *ssa.Defer:
		unsup("defer in %s", fr.fn)
	}
	unsup("instruction %T in %s", in, fr.fn)
	return nil
}

func (ex *Exec) retype(v Val, t types.Type) Val {
	switch x := v.(type) {
	case *Struct:
		return &Struct{t: t, f: x.f}
	}
	return v
}

func (ex *Exec) makeSlice(st *State, et types.Type, n, cp *Term) Val {
	c := ex.c
	k, ok := cp.constInt()
	if isByte(et) && !ex.bv {
		var content *Term
		if ok && k <= 4096 {
			content = c.Lit(string(make([]byte, k)))
		} else {
			content = ex.zeros(cp)
		}
		return Slice{obj: ex.newObj(st, nil, content, "make"), off: c.Int(0), len: n, cap: cp, elem: et, isnil: c.Bool(false)}
	}
	if ok {
		z := ex.zero(et)
		a := &Array{elem: et}
		for i := int64(0); i < k; i++ {
			a.e = append(a.e, z)
		}
		return Slice{obj: ex.newObj(st, nil, a, "make"), off: c.Int(0), len: n, cap: cp, elem: et, isnil: c.Bool(false)}
	}
	lt := leafTypes(et)
	if lt == nil || ex.bv {
		unsup("make of symbolic size, element %s", et)
	}
	s := &SoA{elem: et, n: cp}
	for _, l := range lt {
		var zt *Term
		z := ex.zero(l).(*Term)
		as := "Arr:" + z.sort
		zt = c.mk("constarr", as, nil, "", z)
		if z.sort == "Int" {
			zt.lo, zt.hi = new(big.Int), new(big.Int)
		}
		s.leaves = append(s.leaves, zt)
	}
	return Slice{obj: ex.newObj(st, nil, s, "make"), off: c.Int(0), len: n, cap: cp, elem: et, isnil: c.Bool(false)}
}

// zeros is a sequence of n zero bytes, n symbolic.
func (ex *Exec) zeros(n *Term) *Term {
	c := ex.c
	t := c.UF("zeros", "Seq", n)
	c.Fact(t, c.mk("=", "Bool", nil, "", c.mk("len", "Int", nil, "", t), n))
	key := "zeros_ax"
	if !ex.notes[key] {
		ex.notes[key] = true
		k := c.BoundVar("zk", "Int")
		i := c.BoundVar("zi", "Int")
		z := c.UF("zeros", "Seq", k)
		body := c.Implies(c.And(c.Le(c.Int(0), i), c.Lt(i, k)), c.Eq(c.mk("nth", "Int", nil, "", z, i), c.Int(0)))
		c.axioms = append(c.axioms, c.mk("forall", "Bool", nil, "", k, i, body))
	}
	return t
}

func (ex *Exec) content(st *State, s Slice) Val {
	if s.obj == 0 {
		return nil
	}
	return st.heap.get(s.obj).v
}

// bytesOf returns the sequence held by a byte slice (int mode).
func (ex *Exec) bytesOf(st *State, s Slice) *Term {
	if s.obj == 0 {
		return ex.c.Lit("")
	}
	t, ok := st.heap.get(s.obj).v.(*Term)
	if !ok {
		unsup("byte content of %T", st.heap.get(s.obj).v)
	}
	return ex.c.Sub3(t, s.off, s.len)
}

func (ex *Exec) newBytes(st *State, t *Term, name string) Slice {
	c := ex.c
	n := c.Len(t)
	return Slice{obj: ex.newObj(st, nil, t, name), off: c.Int(0), len: n, cap: n, elem: types.Typ[types.Uint8], isnil: c.Bool(false)}
}

func (ex *Exec) boundsOK(i, n *Term) *Term {
	return ex.c.And(ex.c.Le(ex.c.Int(0), i), ex.c.Lt(i, n))
}

func (ex *Exec) indexAddr(st *State, x *ssa.IndexAddr, v, iv Val) []stepRes {
	c := ex.c
	i := ex.toIdx(iv, x.Index.Type())
	switch a := v.(type) {
	case Slice:
		var ok *Term
		if i.sort == "Int" {
			ok = ex.boundsOK(i, a.len)
		} else {
			ok = c.BVcmp("bvult", i, ex.fromIdx(a.len))
		}
		if !ex.oblige(st, "bounds", "index in range", x.Pos(), ok) {
			return nil
		}
		if a.obj == 0 {
			return nil
		}
		idx := i
		if i.sort == "Int" {
			idx = c.Add(a.off, i)
		} else {
			idx = c.BVop("bvadd", i, ex.fromIdx(a.off))
		}
		return one(st, Ptr{obj: a.obj, path: []pel{{idx: idx}}})
	case Ptr: // pointer to array
		if a.obj == 0 {
			ex.oblige(st, "nil", "nil array pointer unreachable", x.Pos(), c.Bool(false))
			return nil
		}
		n := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		if !ex.idxObl(st, x.Pos(), i, n) {
			return nil
		}
		return one(st, Ptr{obj: a.obj, path: append(a.path[:len(a.path):len(a.path)], pel{idx: i})})
	}
	unsup("index address of %T (%v)", v, v)
	return nil
}

func (ex *Exec) idxObl(st *State, pos token.Pos, i *Term, n int64) bool {
	c := ex.c
	if i.sort == "Int" {
		return ex.oblige(st, "bounds", "index in range", pos, ex.boundsOK(i, c.Int(n)))
	}
	if w := bvw(i.sort); w < 62 && int64(1)<<uint(w) <= n {
		return true
	}
	return ex.oblige(st, "bounds", "index in range", pos, c.BVcmp("bvult", i, c.BV(big.NewInt(n), bvw(i.sort))))
}

func (ex *Exec) indexVal(st *State, x *ssa.Index, v, iv Val) []stepRes {
	i := ex.toIdx(iv, x.Index.Type())
	switch u := x.X.Type().Underlying().(type) {
	case *types.Array:
		if !ex.idxObl(st, x.Pos(), i, u.Len()) {
			return nil
		}
		return one(st, ex.index(v, i))
	case *types.Basic: // string
		return ex.strIndex(st, x.Pos(), v, i)
	}
	unsup("index of %s", x.X.Type())
	return nil
}

func (ex *Exec) strIndex(st *State, pos token.Pos, v Val, i *Term) []stepRes {
	c := ex.c
	switch s := v.(type) {
	case *Term:
		if s.sort == "Str" {
			if s.op == "strlit" {
				if k, ok := i.constInt(); ok && k >= 0 && int(k) < len(s.str)-2 {
					return one(st, ex.intConst(big.NewInt(int64(s.str[2+k])), types.Typ[types.Uint8]))
				}
			}
			unsup("index into opaque string")
		}
		if !ex.oblige(st, "bounds", "string index in range", pos, ex.boundsOK(i, c.Len(s))) {
			return nil
		}
		return one(st, c.Nth(s, i))
	case *StrVec:
		k, ok := i.constInt()
		if !ok {
			a := &Array{}
			for _, b := range s.b {
				a.e = append(a.e, b)
			}
			if !ex.idxObl(st, pos, i, int64(len(s.b))) {
				return nil
			}
			return one(st, ex.index(a, i))
		}
		if k < 0 || int(k) >= len(s.b) {
			ex.oblige(st, "bounds", "string index in range", pos, c.Bool(false))
			return nil
		}
		return one(st, s.b[k])
	}
	unsup("string index of %T", v)
	return nil
}

func (ex *Exec) slice(st *State, x *ssa.Slice, en env) []stepRes {
	c := ex.c
	get := func(v ssa.Value, d *Term) *Term {
		if v == nil {
			return d
		}
		t := ex.toIdx(ex.val(en, v), v.Type())
		if t.sort != "Int" {
			unsup("symbolic slice bound in bv mode")
		}
		return t
	}
	v := ex.val(en, x.X)
	lo := get(x.Low, c.Int(0))
	switch u := x.X.Type().Underlying().(type) {
	case *types.Pointer: // array
		p, isP := v.(Ptr)
		if !isP {
			unsup("slice of array pointer %T (%v)", v, v)
		}
		if p.obj == 0 {
			ex.oblige(st, "nil", "nil array pointer unreachable", x.Pos(), c.Bool(false))
			return nil
		}
		at := u.Elem().Underlying().(*types.Array)
		n := c.Int(at.Len())
		hi := get(x.High, n)
		mx := get(x.Max, n)
		if !ex.oblige(st, "bounds", "slice bounds in range", x.Pos(), c.And(c.Le(c.Int(0), lo), c.Le(lo, hi), c.Le(hi, mx), c.Le(mx, n))) {
			return nil
		}
		obj := p.obj
		if len(p.path) > 0 {
			// array inside a struct: moved to an object of its own
			o := st.heap.get(p.obj)
			v := o.v
			for i := range p.path {
				if r, ok := v.(ArrRef); ok {
					v = st.heap.get(r.obj).v
				}
				v = ex.get(v, p.path[i:i+1])
			}
			if r, ok := v.(ArrRef); ok {
				obj = r.obj
			} else {
				for _, e := range p.path {
					if e.idx != nil {
						unsup("slice of an array inside an array")
					}
				}
				obj = ex.newObj(st, nil, v, "array field")
				st.heap.set(p.obj, &Obj{t: o.t, v: ex.set(o.v, p.path, ArrRef{obj}), name: o.name, ro: o.ro})
				ex.arrRefs = true
			}
		}
		return one(st, Slice{obj: obj, off: lo, len: c.Sub(hi, lo), cap: c.Sub(mx, lo), elem: at.Elem(), isnil: c.Bool(false)})
	case *types.Basic: // string
		switch s := v.(type) {
		case *Term:
			if s.sort == "Str" {
				unsup("slice of opaque string")
			}
			hi := get(x.High, c.Len(s))
			if !ex.oblige(st, "bounds", "string slice bounds in range", x.Pos(), c.And(c.Le(c.Int(0), lo), c.Le(lo, hi), c.Le(hi, c.Len(s)))) {
				return nil
			}
			return one(st, c.Sub3(s, lo, c.Sub(hi, lo)))
		case *StrVec:
			hi := get(x.High, c.Int(int64(len(s.b))))
			l, ok1 := lo.constInt()
			h, ok2 := hi.constInt()
			if !ok1 || !ok2 {
				unsup("symbolic string slice in bv mode")
			}
			if l < 0 || l > h || h > int64(len(s.b)) {
				ex.oblige(st, "bounds", "string slice bounds in range", x.Pos(), c.Bool(false))
				return nil
			}
			return one(st, &StrVec{b: s.b[l:h]})
		}
	case *types.Slice:
		s, ok := v.(Slice)
		if !ok {
			unsup("slice of %T (%v)", v, v)
		}
		hi := get(x.High, s.len)
		mx := get(x.Max, s.cap)
		if !ex.oblige(st, "bounds", "slice bounds in range", x.Pos(), c.And(c.Le(c.Int(0), lo), c.Le(lo, hi), c.Le(hi, mx), c.Le(mx, s.cap))) {
			return nil
		}
		return one(st, Slice{obj: s.obj, off: c.Add(s.off, lo), len: c.Sub(hi, lo), cap: c.Sub(mx, lo), elem: s.elem, isnil: s.isnil})
	}
	unsup("slice of %s", x.X.Type())
	return nil
}

func (ex *Exec) unop(st *State, en env, x *ssa.UnOp) []stepRes {
	c := ex.c
	v := ex.val(en, x.X)
	switch x.Op {
	case token.MUL:
		p, ok := v.(Ptr)
		if !ok {
			if po, ok := v.(Poison); ok {
				return one(st, po)
			}
			unsup("load through %T", v)
		}
		if p.obj == 0 {
			ex.oblige(st, "nil", "nil pointer dereference unreachable", x.Pos(), c.Bool(false))
			return nil
		}
		return one(st, ex.load(st, p))
	case token.NOT:
		return one(st, c.Not(v.(*Term)))
	case token.SUB:
		t := v.(*Term)
		if t.sort == "Float" {
			return one(st, c.UF("fneg", "Float", t))
		}
		if ex.bv {
			return one(st, c.BVneg(t))
		}
		return one(st, ex.wrap(st, c.Neg(t), x.Type()))
	case token.XOR:
		t := v.(*Term)
		if ex.bv {
			return one(st, c.BVnot(t))
		}
		b, s, _ := intInfo(x.Type())
		if s {
			return one(st, c.Sub(c.Int(-1), t))
		}
		return one(st, c.Sub(c.Big(mask(b)), t))
	}
	unsup("unop %s", x.Op)
	return nil
}

// wrap reduces an exact integer result to the type's range.
func (ex *Exec) wrap(st *State, t *Term, typ types.Type) *Term {
	c := ex.c
	b, s, ok := intInfo(typ)
	if !ok {
		unsup("wrap to %s", typ)
	}
	lo, hi := intRange(b, s)
	if ex.digitEqs != nil {
		// only if the digits vanish altogether
		if u := ex.elimLin(st, t); u != t {
			l, k := lin{}, new(big.Int)
			ex.c.linOf(u, big.NewInt(1), l, k)
			ok := true
			for x := range l {
				ok = ok && !ex.isDigit[x]
			}
			if ok {
				t = u
			}
		}
	}
	var bd bounds
	if st != nil {
		bd = st.bd
	}
	tl, th := c.Range(t, bd)
	if tl != nil && th != nil && tl.Cmp(lo) >= 0 && th.Cmp(hi) <= 0 {
		return t
	}
	m := new(big.Int).Lsh(big.NewInt(1), uint(b))
	// a number congruent to t that needs no wrapping
	if u := c.stripWrap(t, m, 0); u != t {
		ul, uh := c.Range(u, bd)
		if ul != nil && uh != nil && ul.Cmp(lo) >= 0 && uh.Cmp(hi) <= 0 {
			return u
		}
	}
	if s {
		h := new(big.Int).Lsh(big.NewInt(1), uint(b-1))
		// single overflow: cheaper as ite
		if tl != nil && th != nil && th.Cmp(new(big.Int).Add(hi, m)) <= 0 && tl.Cmp(new(big.Int).Sub(lo, m)) >= 0 {
			r := t
			if tl.Cmp(lo) < 0 {
				r = c.Ite(c.Lt(t, c.Big(lo)), c.Add(t, c.Big(m)), r)
			}
			if th.Cmp(hi) > 0 {
				r = c.Ite(c.Lt(c.Big(hi), t), c.Sub(t, c.Big(m)), r)
			}
			return ex.typed(r, lo, hi)
		}
		return ex.typed(c.Sub(c.Mod(c.Add(t, c.Big(h)), c.Big(m)), c.Big(h)), lo, hi)
	}
	if tl != nil && th != nil && th.Cmp(new(big.Int).Add(hi, m)) <= 0 && tl.Cmp(new(big.Int).Neg(m)) >= 0 {
		r := t
		if tl.Sign() < 0 {
			r = c.Ite(c.Lt(t, c.Int(0)), c.Add(t, c.Big(m)), r)
		}
		if th.Cmp(hi) > 0 {
			r = c.Ite(c.Lt(c.Big(hi), t), c.Sub(t, c.Big(m)), r)
		}
		return ex.typed(r, lo, hi)
	}
	return c.Mod(t, c.Big(m))
}

// stripWrap is a term congruent to t modulo m, without earlier reductions modulo
// (multiples of) m.
func (c *Ctx) stripWrap(t *Term, m *big.Int, d int) *Term {
	if d > 6 {
		return t
	}
	switch t.op {
	case "ite":
		l, k := c.linDiff(t.args[1], t.args[2])
		if len(l) == 0 && new(big.Int).Mod(k, m).Sign() == 0 {
			return c.stripWrap(t.args[2], m, d+1)
		}
	case "mod":
		if n := t.args[1]; n.op == "int" && n.num.Sign() > 0 && new(big.Int).Mod(n.num, m).Sign() == 0 {
			return c.stripWrap(t.args[0], m, d+1)
		}
	case "+", "*":
		l, k := lin{}, new(big.Int)
		c.linOf(t, big.NewInt(1), l, k)
		if len(l) == 1 && l[t] != nil {
			return t
		}
		ch := false
		sum := []*Term{c.Big(k)}
		for a, n := range l {
			b := c.stripWrap(a, m, d+1)
			if b != a {
				ch = true
			}
			sum = append(sum, c.Mul(c.Big(n), b))
		}
		if ch {
			return c.Add(sum...)
		}
	}
	return t
}

func (ex *Exec) typed(t *Term, lo, hi *big.Int) *Term {
	if t.op == "ite" {
		t.lo, t.hi = maxB(t.lo, lo), minB(t.hi, hi)
	}
	return t
}

func (ex *Exec) typeAssert(st *State, x *ssa.TypeAssert, v Val) []stepRes {
	c := ex.c
	f, ok := v.(Iface)
	if !ok {
		unsup("type assertion on %T", v)
	}
	fail := func() []stepRes {
		if x.CommaOk {
			return one(st, Tuple{ex.zero(x.AssertedType), c.Bool(false)})
		}
		ex.oblige(st, "typeassert", "type assertion holds", x.Pos(), c.Bool(false))
		return nil
	}
	if f.sym {
		unsup("type assertion on symbolic interface")
	}
	if f.typ == nil {
		return fail()
	}
	var match bool
	var res Val
	if it, ok := x.AssertedType.Underlying().(*types.Interface); ok {
		match = types.Implements(f.typ, it)
		res = f
	} else {
		match = types.Identical(f.typ, x.AssertedType)
		res = f.v
	}
	if !match {
		return fail()
	}
	if x.CommaOk {
		return one(st, Tuple{res, c.Bool(true)})
	}
	return one(st, res)
}

// ---- globals

func (ex *Exec) globalPtr(g *ssa.Global) Val {
	if id, ok := ex.globals[g]; ok {
		return Ptr{obj: id}
	}
	unsup("global %s not initialised", g)
	return nil
}

// prepGlobals allocates every global of the packages reachable and runs the
// initialisers of the repository's packages concretely.
func (ex *Exec) prepGlobals(st *State, pkgs []*ssa.Package) {
	for _, p := range ex.e.prog.AllPackages() {
		for _, m := range p.Members {
			g, ok := m.(*ssa.Global)
			if !ok {
				continue
			}
			t := g.Type().Underlying().(*types.Pointer).Elem()
			var v Val
			if ex.e.initPkg(p.Pkg.Path()) {
				v = ex.zero(t)
			} else if types.Identical(t, types.Universe.Lookup("error").Type()) {
				v = Iface{typ: opaqueErrType, v: Ptr{obj: ex.newObj(st, nil, ex.c.Int(0), g.String())}}
			} else if _, isPtr := t.Underlying().(*types.Pointer); isPtr && p.Pkg.Path() == "encoding/base64" {
				// the predefined encodings are four different objects
				v = Ptr{obj: ex.newObj(st, nil, Poison{"contents of " + g.String()}, g.String())}
			} else {
				v = Poison{"global " + g.String()}
			}
			ex.globals[g] = ex.newObj(st, t, v, g.String())
		}
	}
	ex.quiet++
	ex.quietInit++
	done := map[*ssa.Package]bool{}
	var run func(p *ssa.Package)
	run = func(p *ssa.Package) {
		if p == nil || done[p] || !ex.e.initPkg(p.Pkg.Path()) {
			return
		}
		done[p] = true
		for _, im := range p.Pkg.Imports() {
			run(ex.e.prog.Package(im))
		}
		ex.runInit(st, p.Func("init"))
	}
	for _, p := range pkgs {
		run(p)
	}
	ex.quiet--
	ex.quietInit--
	st.heap.freeze()
}

// runInit executes a package initialiser; anything it cannot model becomes poison.
func (ex *Exec) runInit(st *State, fn *ssa.Function) {
	if fn == nil || len(fn.Blocks) == 0 {
		return
	}
	en := env{}
	fr := &frame{fn: fn, ipdom: ex.e.postdom(fn), loops: ex.e.loopsOf(fn)}
	b := fn.Blocks[0]
	var prev *ssa.BasicBlock
	for n := 0; n < 100000; n++ {
		if prev != nil {
			ex.phis(en, b, prev)
		}
		var next *ssa.BasicBlock
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Phi:
			case *ssa.Jump:
				next = b.Succs[0]
			case *ssa.If:
				t, ok := ex.val(en, x.Cond).(*Term)
				if ok && t.isTrue() {
					next = b.Succs[0]
				} else {
					next = b.Succs[1]
				}
			case *ssa.Return:
				return
			default:
				func() {
					defer func() {
						if r := recover(); r != nil {
							u, isU := r.(unsupported)
							if !isU {
								panic(r)
							}
							if os.Getenv("GOVC_DEBUG") != "" {
								fmt.Fprintf(os.Stderr, "init %s: %s: %s\n", fn.Pkg.Pkg.Path(), in, u.msg)
							}
							if v, ok := in.(ssa.Value); ok {
								en[v] = Poison{u.msg}
							}
						}
					}()
					if call, ok := in.(*ssa.Call); ok {
						if f := call.Common().StaticCallee(); f != nil {
							if f.Name() == "init" && f.Pkg != fn.Pkg {
								en[call] = Tuple{}
								return
							}
							if strings.HasPrefix(f.Name(), "init#") {
								ex.runInit(st, f)
								en[call] = Tuple{}
								return
							}
						}
						cs := ex.callStack
						outs := ex.call(fr, st, en, call, call.Common())
						ex.callStack = cs
						if len(outs) != 1 || ex.anyFalse(outs[0].st) {
							unsup("init call with %d outcomes", len(outs))
						}
						*st = *outs[0].st
						ex.bindRes(en, call, outs[0].res)
						return
					}
					sr := ex.step(fr, st, en, in)
					if len(sr) != 1 {
						unsup("init step with %d outcomes", len(sr))
					}
					*st = *sr[0].st
					if sr[0].v != nil {
						en[in.(ssa.Value)] = sr[0].v
					}
				}()
			}
		}
		if next == nil {
			return
		}
		prev, b = b, next
	}
}

func (ex *Exec) anyFalse(st *State) bool {
	for _, t := range st.pc {
		if t.isFalse() {
			return true
		}
	}
	return false
}
