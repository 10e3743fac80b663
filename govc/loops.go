package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type posT = token.Pos

// cutInfo records a loop cut at its invariant.
type cutInfo struct {
	la *loopAnn
}

func firstNonPhi(b *ssa.BasicBlock) int {
	for i, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); !ok {
			return i
		}
	}
	return len(b.Instrs)
}

// runInvariant evaluates the annotation function; assume or check.
func (ex *Exec) runInvariant(fr *frame, st *State, en env, b *ssa.BasicBlock, la *loopAnn, assume bool, label string) *State {
	args := ex.bindInvariant(fr, st, en, b, la)
	sa, sl := ex.invAssume, ex.invLabel
	ex.invAssume, ex.invLabel = assume, "loop invariant "+label
	if !assume {
		st = st.clone()
	}
	sm := ex.merge
	ex.merge = true
	outs := ex.callFn(st, la.fn, args, nil)
	ex.merge = sm
	ex.invAssume, ex.invLabel = sa, sl
	if len(outs) == 0 {
		return nil
	}
	if len(outs) > 1 {
		unsup("loop invariant %s has several outcomes", la.name)
	}
	return outs[0].st
}

func (ex *Exec) checkInvariant(fr *frame, st *State, en env, b, prev *ssa.BasicBlock, ci *cutInfo, label string) {
	e2 := en.clone()
	ex.phis(e2, b, prev)
	ex.runInvariant(fr, st, e2, b, ci.la, false, label)
}

func (ex *Exec) bindInvariant(fr *frame, st *State, en env, b *ssa.BasicBlock, la *loopAnn) []Val {
	var args []Val
	for _, p := range la.fn.Params {
		v := ex.findVar(fr, st, en, b, p.Name(), p.Type())
		if v == nil {
			unsup("loop invariant %s: no variable %s in %s", la.name, p.Name(), fr.fn)
		}
		args = append(args, v)
	}
	return args
}

func (ex *Exec) findVar(fr *frame, st *State, en env, b *ssa.BasicBlock, name string, t types.Type) Val {
	same := func(x types.Type) bool { return types.Identical(x, t) }
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if p.Comment == name && same(p.Type()) {
			return en[p]
		}
	}
	// address-taken local
	for _, bb := range fr.fn.Blocks {
		for _, in := range bb.Instrs {
			if al, ok := in.(*ssa.Alloc); ok && al.Comment == name {
				if v, ok := en[al]; ok {
					pt := al.Type().Underlying().(*types.Pointer).Elem()
					if same(pt) {
						return ex.load(st, v.(Ptr))
					}
					if same(al.Type()) {
						return v
					}
				}
			}
		}
	}
	for i, p := range fr.fn.Params {
		if p.Name() == name && same(p.Type()) {
			return fr.params[i]
		}
	}
	for i, p := range fr.fn.FreeVars {
		if p.Name() == name {
			if same(p.Type()) {
				return fr.fv[i]
			}
			if pt, ok := p.Type().Underlying().(*types.Pointer); ok && same(pt.Elem()) {
				return ex.load(st, fr.fv[i].(Ptr))
			}
		}
	}
	// debug references dominating the header
	var best ssa.Value
	for _, bb := range fr.fn.Blocks {
		if !bb.Dominates(b) {
			continue
		}
		for _, in := range bb.Instrs {
			if d, ok := in.(*ssa.DebugRef); ok && !d.IsAddr {
				if o := d.Object(); o != nil && o.Name() == name && same(d.X.Type()) {
					if _, ok := en[d.X]; ok {
						best = d.X
					} else if _, ok := d.X.(*ssa.Const); ok {
						best = d.X
					}
				}
			}
		}
	}
	if best != nil {
		return ex.val(en, best)
	}
	// fall back on a unique value of the right type among the header's phis
	var only Val
	n := 0
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if same(p.Type()) {
			only = en[p]
			n++
		}
	}
	if n == 1 {
		return only
	}
	// or among the parameters
	n = 0
	for i, p := range fr.fn.Params {
		if same(p.Type()) {
			only = fr.params[i]
			n++
		}
	}
	if n == 1 {
		return only
	}
	return nil
}

// cutLoop handles an annotated loop: check on entry, havoc, assume, go on.
func (ex *Exec) cutLoop(fr *frame, st *State, en env, b, prev, stop *ssa.BasicBlock, la *loopAnn) []arrival {
	ci := &cutInfo{la: la}
	if prev != nil {
		ex.phis(en, b, prev)
	}
	ex.runInvariant(fr, st, en, b, la, false, "holds on entry")
	li := fr.loops[b]
	havocPhis := func(en env, st *State) env {
		e := en.clone()
		for _, in := range b.Instrs {
			p, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			nm := p.Comment
			if nm == "" {
				nm = p.Name()
			}
			v := ex.freshLoop(st, p.Type(), nm, en[p])
			e[p] = v
		}
		return e
	}
	// discover the objects the body changes
	modified := map[int]bool{}
	// SSA values of pointer/slice type hold existing objects; run the body quietly
	for round := 0; round < 6; round++ {
		s2 := st.clone()
		e2 := havocPhis(en, s2)
		for o := range modified {
			ob := s2.heap.get(o)
			s2.heap.set(o, &Obj{t: ob.t, v: ex.havocLike(s2, ob.v, ob.t, "hv"), name: ob.name, ro: ob.ro})
		}
		ex.quiet++
		if s3 := ex.runInvariant(fr, s2, e2, b, la, true, ""); s3 != nil {
			s2 = s3
		}
		before := s2.clone()
		d := &discover{}
		ex.discovering = append(ex.discovering, d)
		savedCut := fr.cuts[b]
		fr.cuts[b] = nil
		d.fr, d.header, d.li = fr, b, li
		func() {
			r, ns, nb, done := ex.block(fr, s2, e2, b, firstNonPhi(b), b)
			if !done {
				r = ex.region(fr, ns, e2, nb, b, b, false)
			}
			for _, a := range r {
				if !a.ret {
					d.ends = append(d.ends, a.st)
				} else {
					d.ends = append(d.ends, a.st)
				}
			}
		}()
		fr.cuts[b] = savedCut
		ex.discovering = ex.discovering[:len(ex.discovering)-1]
		ex.quiet--
		grew := false
		for _, e := range d.ends {
			for k, nb := range e.heap.m {
				if ob := before.heap.get(k); ob != nil && nb != ob && !modified[k] {
					modified[k] = true
					grew = true
				}
			}
		}
		if !grew {
			break
		}
	}
	e2 := havocPhis(en, st)
	for o := range modified {
		ob := st.heap.get(o)
		st.heap.set(o, &Obj{t: ob.t, v: ex.havocLike(st, ob.v, ob.t, "loop_"+ob.name), name: ob.name, ro: ob.ro})
	}
	s3 := ex.runInvariant(fr, st, e2, b, la, true, "")
	if s3 == nil {
		return nil
	}
	fr.cuts[b] = ci
	r, ns, nb, done := ex.block(fr, s3, e2, b, firstNonPhi(b), stop)
	if !done {
		r = ex.region(fr, ns, e2, nb, b, stop, false)
	}
	return r
}

type discover struct {
	fr     *frame
	header *ssa.BasicBlock
	li     *loopInfo
	ends   []*State
}

// freshLoop is an arbitrary value of a loop variable.  Slices keep their
// backing object when the entry value has one of constant shape.
func (ex *Exec) freshLoop(st *State, t types.Type, name string, entry Val) Val {
	c := ex.c
	switch x := entry.(type) {
	case Slice:
		if isByte(x.elem) && !ex.bv {
			content := c.Var(name, "Seq")
			n := c.Len(content)
			ex.note("a slice variable changed by an annotated loop is modelled as a fresh slice, not sharing memory")
			return Slice{obj: ex.newObj(st, nil, content, name), off: c.Int(0), len: n, cap: n, elem: x.elem, isnil: c.Var(name+".isnil", "Bool")}
		}
	case Ptr:
		unsup("pointer variable %s changes in an annotated loop", name)
	case *Term:
		if x.sort == "Int" || x.sort == "Bool" || x.sort == "Seq" || isBV(x.sort) {
			return ex.freshTerm(t, name)
		}
	}
	v := ex.fresh(st, t, name)
	return v
}
