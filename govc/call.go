package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const specPath = "verif.local/spec"

// stdModels are functions of package spec that stand for library functions;
// specSource are those of package spec that are executed from their source.
var stdModels = map[string]string{"strings.TrimSpace": "TrimSpaceModel"}
var specSource = map[string]bool{specPath + ".TrimSpaceModel": true, specPath + ".asciiSpace": true}

var opaqueErrType types.Type = types.NewNamed(types.NewTypeName(0, nil, "opaqueError", nil), types.NewStruct(nil, nil), nil)

var errorType = types.Universe.Lookup("error").Type()

func namedPath(t types.Type) string {
	n, ok := t.(*types.Named)
	if !ok {
		return ""
	}
	o := n.Obj()
	if o.Pkg() == nil {
		return o.Name()
	}
	return o.Pkg().Path() + "." + o.Name()
}

func isZ(t types.Type) bool      { return namedPath(t) == specPath+".Z" }
func isBigInt(t types.Type) bool { return namedPath(t) == "math/big.Int" }

func ret(st *State, vs ...Val) []outcome { return []outcome{{st, vs}} }

type callCtx struct {
	fr   *frame
	en   env
	in   *ssa.Call
	fn   *ssa.Function
	args []Val
}

func (ex *Exec) call(fr *frame, st *State, en env, in *ssa.Call, cc *ssa.CallCommon) []outcome {
	var args []Val
	for _, a := range cc.Args {
		args = append(args, ex.val(en, a))
	}
	if cc.IsInvoke() {
		return ex.invoke(fr, st, en, in, cc, ex.val(en, cc.Value), args)
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return ex.builtin(st, in, cc, b.Name(), args)
	}
	if f := cc.StaticCallee(); f != nil {
		var bind []Val
		if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
			bind = ex.val(en, mc).(Func).bind
		}
		return ex.callStatic(fr, st, en, in, f, args, bind)
	}
	v := ex.val(en, cc.Value)
	f, ok := v.(Func)
	if !ok {
		unsup("call of %T in %s", v, fr.fn)
	}
	if f.nilf || f.fn == nil {
		ex.oblige(st, "nil", "nil function call unreachable", in.Pos(), ex.c.Bool(false))
		return nil
	}
	return ex.callStatic(fr, st, en, in, f.fn, args, f.bind)
}

func fnKey(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return o.String()
	}
	return fn.String()
}

func (ex *Exec) callStatic(fr *frame, st *State, en env, in *ssa.Call, fn *ssa.Function, args, bind []Val) []outcome {
	name := fnKey(fn)
	cc := &callCtx{fr: fr, en: en, in: in, fn: fn, args: args}
	if (strings.HasPrefix(name, specPath+".") || strings.HasPrefix(name, "("+specPath+".Z)")) && !specSource[name] {
		return ex.specCall(st, cc, name, args)
	}
	if m := ex.models[name]; m != nil {
		if ex.e.inlinePkg(pkgPathOf(fn)) {
			ex.modular[name+" (as "+m.Name()+")"] = true
		} else {
			ex.externs[name+" (model "+m.Name()+")"] = true
		}
		return ex.callFn(st, m, args, nil)
	}
	if m := ex.e.models[name]; m != nil && ex.e.inlinePkg(pkgPathOf(fn)) {
		// a model of a function of the repository stands for it everywhere
		// except in the contracts on that function, which justify the model
		if ex.root == nil || ex.root.target != fn {
			ex.modular[name+" (as "+m.Name()+")"] = true
			return ex.callFn(st, m, args, nil)
		}
	} else if m != nil {
		ex.externs[name+" (model "+m.Name()+")"] = true
		return ex.callFn(st, m, args, nil)
	}
	if m := stdModels[name]; m != "" {
		for _, p := range ex.e.prog.AllPackages() {
			if p.Pkg.Path() == specPath && p.Func(m) != nil {
				ex.externs[name+" (model spec."+m+")"] = true
				return ex.callFn(st, p.Func(m), args, nil)
			}
		}
	}
	switch name {
	case "strconv.FormatInt", "strconv.FormatUint", "strconv.Itoa", "internal/strconv.FormatInt", "internal/strconv.FormatUint", "internal/strconv.Itoa":
		if outs := ex.digitsNative(st, args); outs != nil {
			return outs
		}
	}
	if n := natives[name]; n != nil && !(ex.c.cs != nil && strings.Contains(name, "encoding/base32.")) {
		if !ex.e.inlinePkg(pkgPathOf(fn)) {
			ex.externs[name] = true
		}
		return n(ex, st, cc, args)
	}
	if ct := ex.e.byTarget[fn]; ct != nil {
		if n := len(ex.assumeMode); n > 0 && ex.assumeMode[n-1].tgt == fn && fr != nil && ex.assumeMode[n-1].fn == fr.fn {
			return ex.havocCall(st, ex.assumeMode[n-1], fn, args)
		}
		if !ct.failed && ct.helper && !(ex.root == ct && len(ex.callStack) > 0 && ex.callStack[len(ex.callStack)-1] == ct.fn) && ex.quietInit == 0 {
			return ex.modularCall(st, ct, fn, args)
		}
	}
	if fn.Synthetic != "" && len(fn.Blocks) > 0 && (fn.Pkg == nil || ex.e.inlinePkg(pkgPathOf(fn)) || strings.Contains(fn.Synthetic, "wrapper") || strings.Contains(fn.Synthetic, "bound")) {
		return ex.callFn(st, fn, args, bind)
	}
	p := pkgPathOf(fn)
	if ex.e.inlinePkg(p) || execStd[p] || fn.Parent() != nil && (ex.e.inlinePkg(pkgPathOf(fn.Parent())) || execStd[pkgPathOf(fn.Parent())]) {
		if len(fn.Blocks) > 0 {
			ex.inlined[fn.String()] = true
			return ex.callFn(st, fn, args, bind)
		}
	}
	unsup("call of unmodelled external %s", name)
	return nil
}

func pkgPathOf(fn *ssa.Function) string {
	if fn == nil {
		return ""
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if o := fn.Origin(); o != nil && o.Pkg != nil {
		return o.Pkg.Pkg.Path()
	}
	if fn.Object() != nil && fn.Object().Pkg() != nil {
		return fn.Object().Pkg().Path()
	}
	return ""
}

// modularCall: the callee is known only by its contract.
func (ex *Exec) modularCall(st *State, ct *Contract, fn *ssa.Function, args []Val) []outcome {
	ex.modular[ct.Name] = true
	n := len(ct.fn.Params)
	cargs := make([]Val, n)
	for i, p := range ct.fn.Params {
		if i < len(args) {
			cargs[i] = args[i]
		} else {
			cargs[i] = ex.fresh(st, p.Type(), "ghost_"+p.Name())
		}
	}
	af := &assumeFrame{fn: ct.fn, tgt: fn}
	ex.assumeMode = append(ex.assumeMode, af)
	savedMod := st.mod
	st.mod = map[int]bool{}
	outs := ex.callFn(st, ct.fn, cargs, nil)
	ex.assumeMode = ex.assumeMode[:len(ex.assumeMode)-1]
	var res []outcome
	for _, o := range outs {
		r, ok := o.st.ret[ct.fn]
		if !ok {
			continue
		}
		o.st.mod = savedMod
		res = append(res, outcome{o.st, r})
	}
	return res
}

// havocCall is the call to the target inside its own contract, in assume mode.
func (ex *Exec) havocCall(st *State, af *assumeFrame, fn *ssa.Function, args []Val) []outcome {
	for o := range st.mod {
		ob := st.heap.get(o)
		if ob == nil {
			continue
		}
		st.heap.set(o, &Obj{t: ob.t, v: ex.havocLike(st, ob.v, ob.t, "hv_"+fn.Name()), name: ob.name, ro: ob.ro})
	}
	res := fn.Signature.Results()
	sts := []outcome{{st, nil}}
	for i := 0; i < res.Len(); i++ {
		t := res.At(i).Type()
		var nx []outcome
		for _, o := range sts {
			nm := fmt.Sprintf("r_%s%d", fn.Name(), i)
			if _, ok := t.Underlying().(*types.Pointer); ok {
				s2 := o.st.clone()
				nx = append(nx, outcome{s2, append(o.res[:len(o.res):len(o.res)], Ptr{})})
			}
			v := ex.fresh(o.st, t, nm)
			if v == nil {
				unsup("havoc result of type %s", t)
			}
			nx = append(nx, outcome{o.st, append(o.res[:len(o.res):len(o.res)], v)})
		}
		sts = nx
	}
	for i := range sts {
		nr := map[*ssa.Function][]Val{}
		for k, v := range sts[i].st.ret {
			nr[k] = v
		}
		nr[af.fn] = sts[i].res
		sts[i].st.ret = nr
	}
	return sts
}

func (ex *Exec) havocLike(st *State, v Val, t types.Type, name string) Val {
	c := ex.c
	switch x := v.(type) {
	case *Term:
		if x.sort == "Seq" {
			return c.FixLen2(c.Var(name, "Seq"), c.Len(x))
		}
		n := c.Var(name, x.sort)
		n.lo, n.hi = nil, nil
		if t != nil {
			if b, s, ok := intInfo(t); ok && x.sort == "Int" {
				n.lo, n.hi = intRange(b, s)
			}
		}
		return n
	case *Struct:
		s := &Struct{t: x.t}
		u, _ := x.t.Underlying().(*types.Struct)
		for i := range x.f {
			var ft types.Type
			if u != nil && i < u.NumFields() {
				ft = u.Field(i).Type()
			}
			s.f = append(s.f, ex.havocLike(st, x.f[i], ft, name))
		}
		return s
	case *Array:
		a := &Array{elem: x.elem}
		for i := range x.e {
			a.e = append(a.e, ex.havocLike(st, x.e[i], x.elem, name))
		}
		return a
	case *SoA:
		n := &SoA{elem: x.elem, n: x.n}
		for i, l := range leafTypes(x.elem) {
			n.leaves = append(n.leaves, ex.freshArr(l, fmt.Sprintf("%s.l%d", name, i)))
		}
		return n
	case Slice:
		if t != nil {
			return ex.fresh(st, t, name)
		}
	case Iface:
		return Iface{sym: true, isnil: c.Var(name+".isnil", "Bool"), id: c.Var(name+".id", "Int")}
	case MathInt:
		return MathInt{c.Var(name, "Int")}
	case Poison:
		return x
	}
	if t != nil {
		return ex.fresh(st, t, name)
	}
	unsup("havoc of %T", v)
	return nil
}

// ---- interface method calls

func (ex *Exec) invoke(fr *frame, st *State, en env, in *ssa.Call, cc *ssa.CallCommon, recv Val, args []Val) []outcome {
	c := ex.c
	if v, ok := recv.(RType); ok {
		return reflTypeMethod(ex, st, v, cc.Method.Name())
	}
	f, ok := recv.(Iface)
	if !ok {
		unsup("invoke on %T", recv)
	}
	if v, ok := f.v.(RType); ok {
		return reflTypeMethod(ex, st, v, cc.Method.Name())
	}
	if f.sym {
		if cc.Method.Name() == "Error" {
			if !ex.oblige(st, "nil", "method call on nil interface unreachable", in.Pos(), c.Not(f.isnil)) {
				return nil
			}
			return ret(st, ex.freshStr(st, "errmsg"))
		}
		unsup("method %s on symbolic interface", cc.Method.Name())
	}
	if f.typ == nil {
		ex.oblige(st, "nil", "method call on nil interface unreachable", in.Pos(), c.Bool(false))
		return nil
	}
	if f.typ == opaqueErrType {
		if cc.Method.Name() == "Error" {
			return ret(st, ex.freshStr(st, "errmsg"))
		}
		unsup("method %s on opaque error", cc.Method.Name())
	}
	if h, ok := f.v.(hashObj); ok {
		return ex.hashMethod(st, h, cc.Method.Name(), args)
	}
	m := ex.e.prog.LookupMethod(f.typ, cc.Method.Pkg(), cc.Method.Name())
	if m == nil {
		unsup("no method %s on %s", cc.Method.Name(), f.typ)
	}
	return ex.callStatic(fr, st, en, in, m, append([]Val{f.v}, args...), nil)
}

func (ex *Exec) freshStr(st *State, name string) Val {
	if ex.bv && !ex.opaque {
		return Poison{"string " + name}
	}
	return ex.freshTerm(types.Typ[types.String], name)
}

func (ex *Exec) newErr(st *State) Iface {
	return Iface{typ: opaqueErrType, v: Ptr{obj: ex.newObj(st, nil, ex.c.Int(0), "error")}}
}

// ---- builtins

func (ex *Exec) builtin(st *State, in *ssa.Call, cc *ssa.CallCommon, name string, args []Val) []outcome {
	c := ex.c
	switch name {
	case "len":
		switch x := args[0].(type) {
		case Slice:
			return ret(st, ex.fromIdx(x.len))
		case *Term:
			if x.sort == "Str" {
				unsup("len of opaque string")
			}
			return ret(st, c.Len(x))
		case *StrVec:
			return ret(st, ex.fromIdx(c.Int(int64(len(x.b)))))
		case *Array:
			return ret(st, ex.fromIdx(c.Int(int64(len(x.e)))))
		case MapV:
			if x.obj == 0 {
				return ret(st, ex.fromIdx(c.Int(0)))
			}
			if mo, ok := st.heap.get(x.obj).v.(*MapObj); ok && ex.concreteKeys(mo) {
				return ret(st, ex.fromIdx(c.Int(int64(len(mo.keys)))))
			}
		}
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			return ret(st, ex.fromIdx(x.cap))
		}
	case "append":
		return ex.appendB(st, in, cc, args)
	case "copy":
		return ex.copyB(st, in, args)
	case "panic":
		ex.oblige(st, "panic", "explicit panic unreachable", in.Pos(), c.Bool(false))
		return nil
	case "min", "max":
		r := args[0].(*Term)
		for _, a := range args[1:] {
			t := a.(*Term)
			var lt *Term
			if ex.bv {
				_, sg, _ := intInfo(cc.Args[0].Type())
				if sg {
					lt = c.BVcmp("bvslt", t, r)
				} else {
					lt = c.BVcmp("bvult", t, r)
				}
			} else {
				lt = c.Lt(t, r)
			}
			if name == "max" {
				lt = c.And(c.Not(lt), c.Not(c.Eq(t, r)))
			}
			r = c.Ite(lt, t, r)
		}
		return ret(st, r)
	case "print", "println":
		return ret(st)
	case "delete":
		m := args[0].(MapV)
		if m.obj == 0 {
			return ret(st)
		}
		mo := st.heap.get(m.obj).v.(*MapObj)
		n := &MapObj{kt: mo.kt, vt: mo.vt}
		for i := range mo.keys {
			e := ex.eqVal(st, mo.keys[i], args[1], mo.kt)
			if e.isTrue() {
				continue
			}
			if !e.isFalse() {
				unsup("delete with symbolic key")
			}
			n.keys = append(n.keys, mo.keys[i])
			n.vals = append(n.vals, mo.vals[i])
		}
		st.heap.set(m.obj, &Obj{t: st.heap.get(m.obj).t, v: n, name: st.heap.get(m.obj).name})
		return ret(st)
	case "ssa:wrapnilchk":
		if p, ok := args[0].(Ptr); ok && p.obj == 0 {
			ex.oblige(st, "nil", "nil receiver unreachable", in.Pos(), c.Bool(false))
			return nil
		}
		return ret(st, args[0])
	}
	unsup("builtin %s", name)
	return nil
}

// vecOf returns constant-length element values of a slice (Array storage) or nil.
func (ex *Exec) vecOf(st *State, s Slice) ([]Val, bool) {
	n, ok := s.len.constInt()
	if !ok {
		return nil, false
	}
	if n == 0 {
		return nil, true
	}
	o, ok := s.off.constInt()
	if !ok {
		return nil, false
	}
	switch a := st.heap.get(s.obj).v.(type) {
	case *Array:
		if o < 0 || n < 0 || o+n > int64(len(a.e)) {
			return nil, false // only on a path already contradictory
		}
		return a.e[o : o+n], true
	case *Term:
		var out []Val
		for i := int64(0); i < n; i++ {
			out = append(out, ex.c.Nth(a, ex.c.Int(o+i)))
		}
		return out, true
	}
	return nil, false
}

func (ex *Exec) appendB(st *State, in *ssa.Call, cc *ssa.CallCommon, args []Val) []outcome {
	c := ex.c
	s, ok := args[0].(Slice)
	if !ok {
		unsup("append to %T (%v)", args[0], args[0])
	}
	et := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
	byteSeq := isByte(et) && !ex.bv
	// the added part
	var addLen *Term
	var addSeq *Term
	var addVec []Val
	var addVecOK bool
	switch a := args[1].(type) {
	case Slice:
		addLen = a.len
		if byteSeq {
			addSeq = ex.bytesOf(st, a)
		} else {
			addVec, addVecOK = ex.vecOf(st, a)
			if !addVecOK {
				unsup("append of a slice of symbolic length")
			}
		}
	case *Term:
		if a.sort != "Seq" {
			unsup("append of opaque string")
		}
		addLen, addSeq = c.Len(a), a
	case *StrVec:
		addLen = c.Int(int64(len(a.b)))
		for _, b := range a.b {
			addVec = append(addVec, b)
		}
		addVecOK = true
	default:
		unsup("append of %T", args[1])
	}
	newLen := c.Add(s.len, addLen)
	if s.obj == 0 {
		// nil slice: result nil iff nothing added
		z := c.Eq(addLen, c.Int(0))
		if byteSeq {
			nw := ex.newBytes(st, addSeq, "append")
			nw.elem = et
			nw.isnil = c.And(s.isnil, z)
			if z.isTrue() {
				return ret(st, s)
			}
			return ret(st, nw)
		}
		if len(addVec) == 0 {
			return ret(st, s)
		}
		return ret(st, ex.newVec(st, et, addVec, "append"))
	}
	fits := ex.simp(st, c.Le(newLen, s.cap))
	var outs []outcome
	if !fits.isFalse() {
		// in place
		s2 := st
		if !fits.isTrue() {
			s2 = st.clone()
		}
		if ex.assume(s2, fits) && (fits.isTrue() || ex.pure > 0 || ex.feasible(s2, false)) {
			o := s2.heap.get(s.obj)
			switch a := o.v.(type) {
			case *Term:
				if !c.Eq(addLen, c.Int(0)).isTrue() {
					end := c.Add(s.off, s.len)
					nv := c.Cat(c.Sub3(a, c.Int(0), end), addSeq, c.Sub3(a, c.Add(end, addLen), c.Sub(c.Len(a), c.Add(end, addLen))))
					s2.heap.set(s.obj, &Obj{t: o.t, v: nv, name: o.name, ro: o.ro})
				}
			case *Array:
				of, ok1 := s.off.constInt()
				ln, ok2 := s.len.constInt()
				if !ok1 || !ok2 {
					unsup("append in place at symbolic position")
				}
				n := &Array{elem: a.elem, e: append([]Val{}, a.e...)}
				for i, v := range addVec {
					n.e[of+ln+int64(i)] = v
				}
				s2.heap.set(s.obj, &Obj{t: o.t, v: n, name: o.name, ro: o.ro})
			case *SoA:
				n := a
				for i, v := range addVec {
					n = ex.soaSet(n, c.Add(s.off, s.len, c.Int(int64(i))), v)
				}
				s2.heap.set(s.obj, &Obj{t: o.t, v: n, name: o.name, ro: o.ro})
			default:
				unsup("append to %T", o.v)
			}
			outs = append(outs, outcome{s2, []Val{Slice{obj: s.obj, off: s.off, len: newLen, cap: s.cap, elem: s.elem, isnil: s.isnil}}})
		}
	}
	if !fits.isTrue() {
		s3 := st
		if len(outs) > 0 || !fits.isFalse() {
			s3 = st.clone()
		}
		if ex.assume(s3, c.Not(fits)) && (fits.isFalse() || ex.pure > 0 || ex.feasible(s3, false)) {
			o := s3.heap.get(s.obj)
			ex.note("append that reallocates is modelled with capacity equal to length")
			switch a := o.v.(type) {
			case *Term:
				nw := ex.newBytes(s3, c.Cat(c.Sub3(a, s.off, s.len), addSeq), "append")
				nw.elem = et
				outs = append(outs, outcome{s3, []Val{nw}})
			case *Array:
				old, ok := ex.vecOf(s3, s)
				if !ok {
					unsup("append to slice of symbolic length")
				}
				vs := append(append([]Val{}, old...), addVec...)
				outs = append(outs, outcome{s3, []Val{ex.newVec(s3, et, vs, "append")}})
			case *SoA:
				if !s.off.isNum() || s.off.num.Sign() != 0 {
					unsup("append to an offset slice of symbolic length")
				}
				n := &SoA{elem: a.elem, n: newLen, leaves: a.leaves}
				for i, v := range addVec {
					n = ex.soaSet(n, c.Add(s.len, c.Int(int64(i))), v)
				}
				id := ex.newObj(s3, nil, n, "append")
				outs = append(outs, outcome{s3, []Val{Slice{obj: id, off: c.Int(0), len: newLen, cap: newLen, elem: et, isnil: c.Bool(false)}}})
			default:
				unsup("append to %T", o.v)
			}
		}
	}
	return outs
}

func (ex *Exec) newVec(st *State, et types.Type, vs []Val, name string) Slice {
	n := ex.c.Int(int64(len(vs)))
	return Slice{obj: ex.newObj(st, nil, &Array{elem: et, e: vs}, name), off: ex.c.Int(0), len: n, cap: n, elem: et, isnil: ex.c.Bool(false)}
}

func (ex *Exec) copyB(st *State, in *ssa.Call, args []Val) []outcome {
	c := ex.c
	d := args[0].(Slice)
	var slen *Term
	var sseq *Term
	var svec []Val
	bytesMode := isByte(d.elem) && !ex.bv
	switch a := args[1].(type) {
	case Slice:
		slen = a.len
		if bytesMode {
			sseq = ex.bytesOf(st, a)
		} else {
			var ok bool
			svec, ok = ex.vecOf(st, a)
			if !ok {
				unsup("copy of symbolic length")
			}
		}
	case *Term:
		slen, sseq = c.Len(a), a
	case *StrVec:
		slen = c.Int(int64(len(a.b)))
		for _, b := range a.b {
			svec = append(svec, b)
		}
	}
	n := c.Ite(ex.simp(st, c.Le(slen, d.len)), slen, d.len)
	if d.obj == 0 {
		return ret(st, ex.fromIdx(c.Int(0)))
	}
	o := st.heap.get(d.obj)
	switch a := o.v.(type) {
	case *Term:
		end := c.Add(d.off, n)
		nv := c.Cat(c.Sub3(a, c.Int(0), d.off), c.Sub3(sseq, c.Int(0), n), c.Sub3(a, end, c.Sub(c.Len(a), end)))
		st.heap.set(d.obj, &Obj{t: o.t, v: nv, name: o.name, ro: o.ro})
	case *Array:
		k, ok := n.constInt()
		of, ok2 := d.off.constInt()
		if !ok || !ok2 {
			unsup("copy of symbolic length")
		}
		na := &Array{elem: a.elem, e: append([]Val{}, a.e...)}
		for i := int64(0); i < k; i++ {
			na.e[of+i] = svec[i]
		}
		st.heap.set(d.obj, &Obj{t: o.t, v: na, name: o.name, ro: o.ro})
	default:
		unsup("copy into %T", o.v)
	}
	return ret(st, ex.fromIdx(n))
}

// ---- maps

func (ex *Exec) concreteKeys(m *MapObj) bool {
	for _, k := range m.keys {
		t, ok := k.(*Term)
		if !ok || !(t.isNum() || t.op == "lit" || t.op == "strlit" || t.isTrue() || t.isFalse()) {
			if _, isR := k.(RType); isR {
				continue
			}
			if i, isI := k.(Iface); isI && !i.sym {
				continue
			}
			return false
		}
	}
	return true
}

func (ex *Exec) mapUpdate(st *State, m, k, v Val) []stepRes {
	mv, ok := m.(MapV)
	if !ok {
		unsup("update of %T", m)
	}
	if mv.obj == 0 {
		ex.oblige(st, "nil", "assignment to nil map unreachable", 0, ex.c.Bool(false))
		return nil
	}
	o := st.heap.get(mv.obj)
	mo, ok := o.v.(*MapObj)
	if !ok {
		unsup("map of %T", o.v)
	}
	n := &MapObj{kt: mo.kt, vt: mo.vt, keys: append([]Val{}, mo.keys...), vals: append([]Val{}, mo.vals...)}
	done := false
	for i := range n.keys {
		e := ex.eqVal(st, n.keys[i], k, n.kt)
		if e.isTrue() {
			n.vals[i] = v
			done = true
			break
		}
		if !e.isFalse() {
			unsup("map update with symbolic key")
		}
	}
	if !done {
		n.keys = append(n.keys, k)
		n.vals = append(n.vals, v)
	}
	st.heap.set(mv.obj, &Obj{t: o.t, v: n, name: o.name, ro: o.ro})
	return one(st, nil)
}

func (ex *Exec) lookup(st *State, x *ssa.Lookup, m, k Val) []stepRes {
	c := ex.c
	if mt, ok := x.X.Type().Underlying().(*types.Map); ok {
		mv, ok := m.(MapV)
		if !ok {
			unsup("lookup in %T (%v)", m, m)
		}
		res := func(v Val, ok bool) Val {
			if x.CommaOk {
				return Tuple{v, c.Bool(ok)}
			}
			return v
		}
		if mv.obj == 0 {
			return one(st, res(ex.zero(mt.Elem()), false))
		}
		mo, ok := st.heap.get(mv.obj).v.(*MapObj)
		if !ok {
			unsup("map of %T", st.heap.get(mv.obj).v)
		}
		var outs []stepRes
		cur := st
		for i := range mo.keys {
			e := ex.simp(cur, ex.eqVal(cur, mo.keys[i], k, mo.kt))
			if e.isFalse() {
				continue
			}
			if e.isTrue() {
				return append(outs, stepRes{cur, res(mo.vals[i], true)})
			}
			s2 := cur.clone()
			if ex.assume(s2, e) && (ex.pure > 0 || ex.feasible(s2, false)) {
				outs = append(outs, stepRes{s2, res(mo.vals[i], true)})
			}
			if !ex.assume(cur, c.Not(e)) {
				return outs
			}
		}
		if len(outs) > 0 && ex.pure == 0 && !ex.feasible(cur, false) {
			return outs
		}
		return append(outs, stepRes{cur, res(ex.zero(mt.Elem()), false)})
	}
	// string index
	i := ex.toIdx(k, x.Index.Type())
	return ex.strIndex(st, x.Pos(), m, i)
}

// strIter iterates over a string.
type strIter struct {
	s   Val
	pos *Term
	k   int
}

func (ex *Exec) rangeString(st *State, x *ssa.Range, v Val) []stepRes {
	switch v.(type) {
	case *StrVec, *Term:
		return one(st, Ptr{obj: ex.newObj(st, nil, strIter{s: v, pos: ex.c.Int(0)}, "striter")})
	}
	unsup("range over %T", v)
	return nil
}

func (ex *Exec) next(st *State, x *ssa.Next, p Ptr) []stepRes {
	c := ex.c
	o := st.heap.get(p.obj)
	switch it := o.v.(type) {
	case MapIter:
		if it.obj == 0 {
			return one(st, Tuple{c.Bool(false), Poison{"key"}, Poison{"val"}})
		}
		mo := st.heap.get(it.obj).v.(*MapObj)
		if !ex.concreteKeys(mo) {
			unsup("iteration over a map with symbolic keys")
		}
		ex.note("map iteration is modelled in insertion order")
		if it.pos >= len(mo.keys) {
			return one(st, Tuple{c.Bool(false), ex.zero(mo.kt), ex.zero(mo.vt)})
		}
		st.heap.set(p.obj, &Obj{v: MapIter{obj: it.obj, pos: it.pos + 1}, name: o.name})
		return one(st, Tuple{c.Bool(true), mo.keys[it.pos], mo.vals[it.pos]})
	case strIter:
		// ASCII content: one byte per rune.  A byte >= 0x80 forks a path on
		// which the rune is unconstrained above 0x7f and one to four bytes are consumed.
		switch s := it.s.(type) {
		case *StrVec:
			if it.k >= len(s.b) {
				return one(st, Tuple{c.Bool(false), ex.intConst(new(big.Int), types.Typ[types.Int]), ex.intConst(new(big.Int), types.Typ[types.Int32])})
			}
			b := s.b[it.k]
			ascii := ex.simp(st, c.BVcmp("bvult", b, c.BV(big.NewInt(128), 8)))
			st.heap.set(p.obj, &Obj{v: strIter{s: s, k: it.k + 1}, name: o.name})
			r := c.ZExt(b, 32)
			if !ascii.isTrue() {
				unsup("range over a string that may hold non-ASCII bytes in bv mode")
			}
			return one(st, Tuple{c.Bool(true), ex.intConst(big.NewInt(int64(it.k)), types.Typ[types.Int]), r})
		case *Term:
			var outs []stepRes
			more := ex.simp(st, c.Lt(it.pos, c.Len(s)))
			if !more.isTrue() {
				s2 := st.clone()
				if ex.assume(s2, c.Not(more)) && (ex.pure > 0 || ex.feasible(s2, false)) {
					outs = append(outs, stepRes{s2, Tuple{c.Bool(false), c.Int(0), c.Int(0)}})
				}
			}
			if more.isFalse() || !ex.assume(st, more) || (!more.isTrue() && ex.pure == 0 && !ex.feasible(st, false)) {
				return outs
			}
			b := c.Nth(s, it.pos)
			ascii := ex.simp(st, c.Lt(b, c.Int(128)))
			if !ascii.isTrue() {
				s3 := st.clone()
				if ex.assume(s3, c.Not(ascii)) && (ex.pure > 0 || ex.feasible(s3, false)) {
					r := c.VarRange("rune", big.NewInt(128), big.NewInt(0x10FFFF))
					w := c.VarRange("runew", big.NewInt(1), big.NewInt(4))
					np := c.Add(it.pos, w)
					ex.assume(s3, c.Le(np, c.Len(s)))
					s3.heap.set(p.obj, &Obj{v: strIter{s: s, pos: np}, name: o.name})
					outs = append(outs, stepRes{s3, Tuple{c.Bool(true), it.pos, r}})
				}
			}
			if ascii.isFalse() || !ex.assume(st, ascii) || (!ascii.isTrue() && ex.pure == 0 && !ex.feasible(st, false)) {
				return outs
			}
			st.heap.set(p.obj, &Obj{v: strIter{s: s, pos: c.Add(it.pos, c.Int(1))}, name: o.name})
			return append(outs, stepRes{st, Tuple{c.Bool(true), it.pos, b}})
		}
	}
	unsup("next on %T", o.v)
	return nil
}

// ---- the specification vocabulary

func (ex *Exec) inAssume(fr *frame) bool {
	n := len(ex.assumeMode)
	return n > 0 && fr != nil && ex.assumeMode[n-1].fn == fr.fn
}

func (ex *Exec) specCall(st *State, cc *callCtx, name string, args []Val) []outcome {
	c := ex.c
	pos := cc.in.Pos()
	T := func(i int) *Term {
		t, ok := args[i].(*Term)
		if !ok {
			unsup("%s of %T", name, args[i])
		}
		return t
	}
	Z := func(i int) *Term {
		switch z := args[i].(type) {
		case MathInt:
			return z.t
		case *Struct:
			return c.Int(0)
		}
		unsup("%s of %T", name, args[i])
		return nil
	}
	short := strings.TrimPrefix(name, specPath+".")
	if strings.HasPrefix(name, "(") {
		short = strings.TrimPrefix(name, "("+specPath+".Z).")
		switch short {
		case "Add":
			return ret(st, MathInt{c.Add(Z(0), Z(1))})
		case "Sub":
			return ret(st, MathInt{c.Sub(Z(0), Z(1))})
		case "Mul":
			return ret(st, MathInt{c.Mul(Z(0), Z(1))})
		case "Neg":
			return ret(st, MathInt{c.Neg(Z(0))})
		case "Div", "Mod", "Quo", "Rem":
			if !ex.oblige(st, "divzero", "spec division by non-zero", pos, c.Not(c.Eq(Z(1), c.Int(0)))) {
				return nil
			}
			switch short {
			case "Div":
				return ret(st, MathInt{c.Div(Z(0), Z(1))})
			case "Mod":
				return ret(st, MathInt{c.Mod(Z(0), Z(1))})
			case "Quo":
				return ret(st, MathInt{ex.quo(st, Z(0), Z(1))})
			default:
				return ret(st, MathInt{c.Sub(Z(0), c.Mul(Z(1), ex.quo(st, Z(0), Z(1))))})
			}
		case "Eq":
			return ret(st, c.Eq(Z(0), Z(1)))
		case "Lt":
			return ret(st, c.Lt(Z(0), Z(1)))
		case "Le":
			return ret(st, c.Le(Z(0), Z(1)))
		case "IsI64":
			lo, hi := intRange(64, true)
			return ret(st, c.And(c.Le(c.Big(lo), Z(0)), c.Le(Z(0), c.Big(hi))))
		case "IsU64":
			lo, hi := intRange(64, false)
			return ret(st, c.And(c.Le(c.Big(lo), Z(0)), c.Le(Z(0), c.Big(hi))))
		}
		unsup("spec %s", name)
	}
	switch short {
	case "Requires":
		if ex.inAssume(cc.fr) {
			if !ex.oblige(st, "requires", "precondition of "+cc.fr.fn.Name(), ex.callPos(), T(0)) {
				return nil
			}
			return ret(st)
		}
		if !ex.assume(st, T(0)) {
			return nil
		}
		return ret(st)
	case "Ensures", "EnsuresN", "Assert":
		i := 0
		label := strings.ToLower(short) + " at " + ex.posStr(pos)
		if short == "EnsuresN" {
			i = 1
			if l, ok := args[0].(*Term); ok && l.op == "lit" {
				label = l.str
			} else if l, ok := args[0].(*Term); ok && l.op == "strlit" {
				label = strings.TrimPrefix(l.str, "s:")
			} else if l, ok := args[0].(*StrVec); ok {
				b := ""
				for _, x := range l.b {
					b += string(rune(x.num.Int64()))
				}
				label = b
			}
		}
		if ex.inAssume(cc.fr) {
			if short == "Assert" {
				return ret(st)
			}
			if !ex.assume(st, T(i)) {
				return nil
			}
			return ret(st)
		}
		kind := "ensures"
		if short == "Assert" {
			kind = "assert"
		}
		if !ex.oblige(st, kind, label, pos, T(i)) {
			return nil
		}
		return ret(st)
	case "Invariant":
		if ex.invAssume {
			if !ex.assume(st, T(0)) {
				return nil
			}
			return ret(st)
		}
		if !ex.oblige(st, "invariant", ex.invLabel+" at "+ex.posStr(pos), pos, T(0)) {
			return nil
		}
		return ret(st)
	case "Modifies":
		nm := map[int]bool{}
		for k := range st.mod {
			nm[k] = true
		}
		vs, ok := ex.vecOf(st, args[0].(Slice))
		if !ok {
			unsup("Modifies of symbolic list")
		}
		for _, v := range vs {
			f := v.(Iface)
			switch p := f.v.(type) {
			case Ptr:
				nm[p.obj] = true
			case Slice:
				nm[p.obj] = true
			default:
				unsup("Modifies of %T", f.v)
			}
		}
		st.mod = nm
		return ret(st)
	case "Implies":
		return ret(st, c.Implies(T(0), T(1)))
	case "Forall", "Exists":
		return ret(st, ex.quant(st, cc, short == "Forall", args))
	case "BytesEq":
		return ret(st, ex.sliceEq(st, args[0].(Slice), args[1].(Slice)))
	case "Copy":
		s := args[0].(Slice)
		if ex.bv {
			vs, ok := ex.vecOf(st, s)
			if !ok {
				unsup("Copy")
			}
			return ret(st, ex.newVec(st, s.elem, append([]Val{}, vs...), "copy"))
		}
		n := ex.newBytes(st, ex.bytesOf(st, s), "copy")
		n.elem = s.elem
		return ret(st, n)
	case "SameArray":
		a, b := args[0].(Slice), args[1].(Slice)
		if a.obj != b.obj || a.obj == 0 {
			return ret(st, c.Bool(false))
		}
		return ret(st, c.And(c.Eq(a.off, b.off), c.Lt(c.Int(0), a.len), c.Lt(c.Int(0), b.len)))
	case "Disjoint":
		a, b := args[0].(Slice), args[1].(Slice)
		if a.obj != b.obj || a.obj == 0 {
			return ret(st, c.Bool(true))
		}
		return ret(st, c.Or(c.Le(c.Add(a.off, a.cap), b.off), c.Le(c.Add(b.off, b.cap), a.off), c.Eq(a.cap, c.Int(0)), c.Eq(b.cap, c.Int(0))))
	case "I", "U":
		t := T(0)
		if ex.bv {
			if !t.isNum() {
				unsup("symbolic machine integer to Z in bv mode")
			}
			if short == "I" {
				return ret(st, MathInt{c.Big(c.sval(t))})
			}
			return ret(st, MathInt{c.Big(t.num)})
		}
		return ret(st, MathInt{t})
	case "Pow10", "Pow2":
		k, ok := T(0).constInt()
		if T(0).isNum() && isBV(T(0).sort) {
			k, ok = c.sval(T(0)).Int64(), true
		}
		if !ok || k < 0 || k > 4000 {
			unsup("%s of a symbolic exponent", short)
		}
		base := int64(10)
		if short == "Pow2" {
			base = 2
		}
		return ret(st, MathInt{c.Big(new(big.Int).Exp(big.NewInt(base), big.NewInt(k), nil))})
	case "Dec":
		l := T(0)
		s := l.str
		if l.op == "strlit" {
			s = s[2:]
		}
		v, ok := new(big.Int).SetString(s, 10)
		if !ok {
			unsup("Dec(%q)", s)
		}
		return ret(st, MathInt{c.Big(v)})
	case "StrIndex":
		return ret(st, ex.strIndexOf(st, args[0], T(1)))
	case "Fn", "FnBool", "FnZ", "FnList", "Any", "AnyBool":
		return ret(st, ex.specFn(st, short, args))
	case "Assume":
		if !ex.assume(st, T(0)) {
			return nil
		}
		return ret(st)
	case "FromBig":
		return ret(st, MathInt{ex.bigVal(st, args[0])})
	case "ToBig":
		return ret(st, ex.bigNew(st, cc.fn.Signature.Results().At(0).Type(), Z(0)))
	case "SeqNum":
		return ret(st, MathInt{ex.beNum(ex.bytesOf(st, args[0].(Slice)))})
	}
	unsup("spec function %s", short)
	return nil
}

func (ex *Exec) sliceEq(st *State, a, b Slice) *Term {
	c := ex.c
	if ex.bv {
		x, ok1 := ex.vecOf(st, a)
		y, ok2 := ex.vecOf(st, b)
		if !ok1 || !ok2 {
			unsup("bytes equality in bv mode")
		}
		if len(x) != len(y) {
			return c.Bool(false)
		}
		var cs []*Term
		for i := range x {
			cs = append(cs, c.Eq(x[i].(*Term), y[i].(*Term)))
		}
		return c.And(cs...)
	}
	return c.Eq(ex.bytesOf(st, a), ex.bytesOf(st, b))
}

func (ex *Exec) callPos() (p2 posT) { return ex.curPos }

// pureCall evaluates a closure to a single value without side effects.
func (ex *Exec) pureCall(st *State, f Func, args []Val) Val {
	ex.pure++
	ex.quiet++
	defer func() { ex.pure--; ex.quiet-- }()
	s2 := st.clone()
	nb := len(s2.pc)
	outs := ex.callFn(s2, f.fn, args, f.bind)
	if len(outs) == 0 {
		unsup("spec closure has no outcome")
	}
	var r Val
	// outcomes carry mutually exclusive guards
	for i := len(outs) - 1; i >= 0; i-- {
		v := outs[i].res[0]
		if r == nil {
			r = v
			continue
		}
		g := ex.c.And(outs[i].st.pc[nb:]...)
		r = ex.iteVal(g, v, r)
		if r == nil {
			unsup("spec closure results cannot be merged")
		}
	}
	return r
}

func (ex *Exec) quant(st *State, cc *callCtx, all bool, args []Val) *Term {
	c := ex.c
	lo, hi := ex.toIdx(args[0], types.Typ[types.Int]), ex.toIdx(args[1], types.Typ[types.Int])
	f, ok := args[2].(Func)
	if !ok {
		unsup("quantifier body %T", args[2])
	}
	l, ok1 := lo.constInt()
	h, ok2 := hi.constInt()
	if ok1 && ok2 && h-l <= 4096 {
		var cs []*Term
		for i := l; i < h; i++ {
			cs = append(cs, ex.pureCall(st, f, []Val{ex.intConst(big.NewInt(i), types.Typ[types.Int])}).(*Term))
		}
		if all {
			return c.And(cs...)
		}
		return c.Or(cs...)
	}
	if ex.bv {
		unsup("symbolic quantifier range in bv mode")
	}
	i := c.BoundVar("q", "Int")
	// bounds are known while evaluating the body
	s2 := st.clone()
	rng := c.And(c.Le(lo, i), c.Lt(i, hi))
	ex.assume(s2, c.Le(lo, i))
	ex.assume(s2, c.Lt(i, hi))
	b := ex.pureCall(s2, f, []Val{i}).(*Term)
	if all {
		return c.Quant(true, []*Term{i}, c.Implies(rng, b))
	}
	return c.Quant(false, []*Term{i}, c.And(rng, b))
}

// strIndexOf: position of an opaque string in a duplicate-free constant table.
func (ex *Exec) strIndexOf(st *State, tab Val, s *Term) Val {
	c := ex.c
	sl, ok := tab.(Slice)
	if !ok {
		unsup("StrIndex in %T", tab)
	}
	vs, ok := ex.vecOf(st, sl)
	if !ok {
		unsup("StrIndex table")
	}
	if s.op == "strlit" || s.op == "lit" {
		for i, v := range vs {
			if v.(*Term) == s {
				return ex.intConst(big.NewInt(int64(i)), types.Typ[types.Int])
			}
		}
		return ex.intConst(big.NewInt(-1), types.Typ[types.Int])
	}
	a := &Array{elem: sl.elem, e: vs}
	srt := "Int"
	if ex.bv {
		srt = "BV64"
	}
	i0 := c.BoundVar("si", srt)
	tt := ex.strTable(a, i0).(*Term)
	if s.op == "uf" && s.str == tt.str {
		return s.args[0]
	}
	if ex.bv {
		// -1 or a position; which one is not known
		r := c.UF("idx_"+tt.str, "BV64", s)
		c.Fact(r, c.Or(c.Eq(r, c.BV(big.NewInt(-1), 64)), c.And(c.mk("bvult", "Bool", nil, "", r, c.BV(big.NewInt(int64(len(vs))), 64)), c.mk("=", "Bool", nil, "", c.UF(tt.str, "Str", r), s))))
		return r
	}
	name := "idx_" + tt.str
	r := c.UF(name, "Int", s)
	r.lo, r.hi = big.NewInt(-1), big.NewInt(int64(len(vs)-1))
	if !ex.notes[name] {
		ex.notes[name] = true
		n := c.Int(int64(len(vs)))
		body := c.Implies(c.And(c.Le(c.Int(0), i0), c.Lt(i0, n)), c.mk("=", "Bool", nil, "", c.UF(name, "Int", tt), i0))
		c.axioms = append(c.axioms, c.mk("forall", "Bool", nil, "", i0, body))
	}
	c.Fact(r, c.Implies(c.mk("<=", "Bool", nil, "", c.Int(0), r), c.mk("=", "Bool", nil, "", c.UF(tt.str, "Str", r), s)))
	return r
}

// specFn makes an application of an uninterpreted function.
func (ex *Exec) specFn(st *State, kind string, args []Val) Val {
	c := ex.c
	if ex.bv {
		unsup("spec.%s in bv mode", kind)
	}
	sized := func(t *Term, v Val) Val {
		n, ok := v.(*Term).constInt()
		if !ok {
			unsup("spec.%s of symbolic length", kind)
		}
		if n >= 0 {
			t = c.FixLen(t, n)
		}
		return ex.newBytes(st, t, "abstract")
	}
	switch kind {
	case "Any":
		return sized(c.Var("any", "Seq"), args[0])
	case "AnyBool":
		return c.Var("any", "Bool")
	}
	nm, ok := strOf(args[0])
	if !ok {
		unsup("name of an abstract function")
	}
	rest := args[1:]
	if kind == "Fn" {
		rest = args[2:]
	}
	vs, ok := ex.vecOf(st, rest[0].(Slice))
	if !ok {
		unsup("arguments of an abstract function")
	}
	var ts []*Term
	for _, v := range vs {
		f := v.(Iface)
		switch x := f.v.(type) {
		case *Term:
			ts = append(ts, x)
		case Slice:
			if isString(x.elem) {
				l, ok := st.heap.get(x.obj).v.(*absList)
				if !ok {
					unsup("list of strings as argument of abstract %s", nm)
				}
				ts = append(ts, l.code)
				continue
			}
			ts = append(ts, ex.bytesOf(st, x))
		case MathInt:
			ts = append(ts, x.t)
		case *Struct:
			ts = append(ts, c.Int(0))
		default:
			unsup("%T as argument of abstract %s", f.v, nm)
		}
	}
	switch kind {
	case "Fn":
		return sized(c.UF("fn_"+nm, "Seq", ts...), args[1])
	case "FnList":
		code := c.UF("fl_"+nm, "Seq", ts...)
		n := c.Len(code)
		return Slice{obj: ex.newObj(st, nil, &absList{code}, "abstract list"), off: c.Int(0), len: n, cap: n, elem: types.Typ[types.String], isnil: c.Bool(false)}
	case "FnBool":
		return c.UF("fb_"+nm, "Bool", ts...)
	}
	return MathInt{c.UF("fz_"+nm, "Int", ts...)}
}

// absList is a list of strings of which nothing is known but how it came about.
type absList struct{ code *Term }
