package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/types"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

type runResult struct {
	Name     string
	Tried    int
	Ran      int
	Fail     string
	FailKind string
	Input    string
	Iter     int
	Lit      string
	Sample   string
	Distinct int
}

type runConfig struct {
	Names   []string
	Seed    int64
	Seconds float64
	Max     int
	From    map[string]int
	Out     string
	Lits    bool
}

// concrete runs contracts of one package on the real code.
func (e *Engine) concrete(dir string, cfg runConfig, lits map[string]string) ([]runResult, string, error) {
	tmp, err := os.MkdirTemp(workDir, "run")
	if err != nil {
		return nil, "", err
	}
	cfg.Out = filepath.Join(tmp, "out.json")
	if cfg.From == nil {
		cfg.From = map[string]int{}
	}
	cj, _ := json.Marshal(cfg)
	cf := filepath.Join(tmp, "cfg.json")
	os.WriteFile(cf, cj, 0o644)
	// the package clause and the contracts of the package
	var pkgName string
	var conts, gens []string
	genNames := map[string]bool{}
	overlay := map[string]string{}
	imports := map[string]string{}
	for _, p := range e.pkgs {
		if strings.TrimPrefix(p.PkgPath, modPath) != dir {
			continue
		}
		pkgName = p.Name
		for _, f := range p.Syntax {
			fn := e.fset.Position(f.Pos()).Filename
			if !strings.Contains(fn, "zz_verif_") {
				continue
			}
			for _, d := range f.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && strings.HasPrefix(fd.Name.Name, "Gen_") {
					genNames[fd.Name.Name] = true
				}
			}
		}
	}
	for path, src := range e.overlay {
		d, _ := filepath.Rel(filepath.Join(*repo, "pkg"), filepath.Dir(path))
		if !e.hasDir(d) {
			continue
		}
		real := filepath.Join(tmp, hashStr(path)+".go")
		os.WriteFile(real, src, 0o644)
		overlay[path] = real
	}
	if pkgName == "" {
		return nil, "", fmt.Errorf("no package %s", dir)
	}
	for _, c := range e.contracts {
		if strings.TrimPrefix(c.pkg.Pkg.Path(), modPath) != dir || c.model {
			continue
		}
		n := c.fn.Name()
		conts = append(conts, fmt.Sprintf("\t\t%q: %s,\n", c.Name, n))
		g := c.gen
		if g == "" {
			if i := strings.Index(n, "_"); i >= 0 {
				g = "Gen_" + n[i+1:]
			}
		}
		if genNames[g] {
			gens = append(gens, fmt.Sprintf("\t\t%q: %s,\n", c.Name, g))
		} else if c.gen != "" {
			return nil, "", fmt.Errorf("%s: no generator %s", c.Name, g)
		}
	}
	var b strings.Builder
	fmt.Fprintf(&b, "package %s\n\nimport (\n\t\"testing\"\n\t\"verif.local/spec/run\"\n", pkgName)
	for p, n := range imports {
		fmt.Fprintf(&b, "\t%s %q\n", n, p)
	}
	b.WriteString(")\n\nfunc TestVerifRun(t *testing.T) {\n\trun.Main(map[string]interface{}{\n")
	sort.Strings(conts)
	sort.Strings(gens)
	b.WriteString(strings.Join(conts, ""))
	b.WriteString("\t}, map[string]interface{}{\n")
	b.WriteString(strings.Join(gens, ""))
	b.WriteString("\t}, map[string]func() (string, []interface{}){\n")
	var lk []string
	for k := range lits {
		lk = append(lk, k)
	}
	sort.Strings(lk)
	for _, k := range lk {
		fmt.Fprintf(&b, "\t\t%q: func() (string, []interface{}) { return %s },\n", k, lits[k])
	}
	b.WriteString("\t})\n}\n")
	tf := filepath.Join(tmp, "run_test.go")
	os.WriteFile(tf, []byte(b.String()), 0o644)
	pd := filepath.Join(*repo, "pkg", dir)
	// the package's own tests are left out of this build
	ents, _ := os.ReadDir(pd)
	for _, en := range ents {
		if strings.HasSuffix(en.Name(), "_test.go") {
			overlay[filepath.Join(pd, en.Name())] = ""
		}
	}
	overlay[filepath.Join(pd, "zz_verif_run_test.go")] = tf
	oj, _ := json.Marshal(map[string]interface{}{"Replace": overlay})
	of := filepath.Join(tmp, "overlay.json")
	os.WriteFile(of, oj, 0o644)
	secs := int(cfg.Seconds*float64(len(cfg.Names))) + 120
	cmd := exec.Command(goTool(), "test", "-modfile", e.modfile, "-overlay", of, "-vet=off", "-count=1",
		fmt.Sprintf("-timeout=%ds", secs), "-run", "^TestVerifRun$", "./pkg/"+dir)
	cmd.Dir = *repo
	cmd.Env = append(goEnv(), "VERIF_RUN="+cf, "GODEBUG=randautoseed=0")
	out, err := cmd.CombinedOutput()
	var rs []runResult
	if f, ferr := os.Open(cfg.Out); ferr == nil {
		sc := bufio.NewScanner(f)
		sc.Buffer(make([]byte, 1<<20), 1<<26)
		for sc.Scan() {
			var r runResult
			if json.Unmarshal(sc.Bytes(), &r) == nil {
				rs = append(rs, r)
			}
		}
		f.Close()
	}
	if err != nil && len(rs) == 0 {
		return nil, string(out), err
	}
	return rs, string(out), nil
}

func (e *Engine) hasDir(d string) bool {
	for _, x := range e.dirs {
		if x == d {
			return true
		}
	}
	return false
}

// ---- turning a model into Go literals

type sexp struct {
	atom string
	list []*sexp
}

func parseSexp(s string) []*sexp {
	var stack [][]*sexp
	cur := []*sexp{}
	i := 0
	for i < len(s) {
		switch ch := s[i]; {
		case ch == '(':
			stack = append(stack, cur)
			cur = []*sexp{}
			i++
		case ch == ')':
			if len(stack) == 0 {
				return cur
			}
			n := &sexp{list: cur}
			cur = append(stack[len(stack)-1], n)
			stack = stack[:len(stack)-1]
			i++
		case ch == ' ' || ch == '\n' || ch == '\t' || ch == '\r':
			i++
		case ch == '"':
			j := i + 1
			for j < len(s) && s[j] != '"' {
				j++
			}
			cur = append(cur, &sexp{atom: s[i:minInt(j+1, len(s))]})
			i = j + 1
		default:
			j := i
			for j < len(s) && !strings.ContainsRune("() \n\t\r", rune(s[j])) {
				j++
			}
			cur = append(cur, &sexp{atom: s[i:j]})
			i = j
		}
	}
	return cur
}

func (x *sexp) intVal() (*big.Int, bool) {
	if x.list == nil {
		if strings.HasPrefix(x.atom, "#x") {
			v, ok := new(big.Int).SetString(x.atom[2:], 16)
			return v, ok
		}
		if strings.HasPrefix(x.atom, "#b") {
			v, ok := new(big.Int).SetString(x.atom[2:], 2)
			return v, ok
		}
		v, ok := new(big.Int).SetString(x.atom, 10)
		return v, ok
	}
	if len(x.list) == 2 && x.list[0].atom == "-" {
		v, ok := x.list[1].intVal()
		if !ok {
			return nil, false
		}
		return new(big.Int).Neg(v), true
	}
	if len(x.list) == 3 && x.list[0].atom == "_" && strings.HasPrefix(x.list[1].atom, "bv") {
		v, ok := new(big.Int).SetString(x.list[1].atom[2:], 10)
		return v, ok
	}
	return nil, false
}

func (x *sexp) seqVal() ([]byte, bool) {
	if x.list == nil {
		return nil, x.atom == "seq.empty"
	}
	if len(x.list) > 0 {
		switch x.list[0].atom {
		case "as":
			return nil, true
		case "seq.unit":
			v, ok := x.list[1].intVal()
			if !ok {
				return nil, false
			}
			return []byte{byte(new(big.Int).And(v, big.NewInt(255)).Int64())}, true
		case "seq.++":
			var out []byte
			for _, a := range x.list[1:] {
				b, ok := a.seqVal()
				if !ok {
					return nil, false
				}
				out = append(out, b...)
			}
			return out, true
		}
	}
	return nil, false
}

type model map[*Term]*sexp

// collectLeaves gathers the terms whose values determine an input.
func (ex *Exec) collectLeaves(st *State, v Val, out *[]*Term, d int) {
	if d > 8 {
		return
	}
	switch x := v.(type) {
	case *Term:
		if x.op == "var" || x.op == "uf" {
			*out = append(*out, x)
		}
	case MathInt:
		ex.collectLeaves(st, x.t, out, d+1)
	case *Struct:
		for _, f := range x.f {
			ex.collectLeaves(st, f, out, d+1)
		}
	case *Array:
		for _, f := range x.e {
			ex.collectLeaves(st, f, out, d+1)
		}
	case Ptr:
		if x.obj != 0 {
			ex.collectLeaves(st, st.heap.get(x.obj).v, out, d+1)
		}
	case Slice:
		if x.isnil != nil && x.isnil.op == "var" {
			*out = append(*out, x.isnil)
		}
		if x.obj != 0 {
			switch o := st.heap.get(x.obj).v.(type) {
			case *Term:
				*out = append(*out, seqParts(o)...)
			case *SoA:
				*out = append(*out, o.n)
				for _, l := range o.leaves {
					for i := int64(0); i < 6; i++ {
						*out = append(*out, ex.c.Select(l, ex.c.Int(i)))
					}
				}
			default:
				ex.collectLeaves(st, o, out, d+1)
			}
		}
	}
}

type litErr struct{ why string }

func (e *Engine) typeName(t types.Type, pkg *types.Package) string {
	return types.TypeString(t, func(p *types.Package) string {
		if p == pkg {
			return ""
		}
		panic(litErr{"type of another package"})
	})
}

// literal renders the Go expression of an input under a model.
func (ex *Exec) literal(st *State, v Val, t types.Type, m model, pkg *types.Package) string {
	tn := func(t types.Type) string { return ex.e.typeName(t, pkg) }
	num := func(x *Term) *big.Int {
		if x.isNum() {
			return x.num
		}
		s := m[x]
		if s == nil {
			return new(big.Int)
		}
		v, ok := s.intVal()
		if !ok {
			return new(big.Int)
		}
		return v
	}
	seq := func(x *Term) []byte {
		if x.op == "lit" {
			return []byte(x.str)
		}
		s := m[x]
		if s == nil {
			return nil
		}
		b, _ := s.seqVal()
		if n := x.lo; n != nil && x.hi != nil && n.Cmp(x.hi) == 0 {
			for int64(len(b)) < n.Int64() {
				b = append(b, 0)
			}
		}
		return b
	}
	boolv := func(x *Term) bool {
		if x.isTrue() {
			return true
		}
		return m[x] != nil && m[x].atom == "true"
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		x, isT := v.(*Term)
		if sv, ok := v.(*StrVec); ok {
			var b []byte
			for _, y := range sv.b {
				b = append(b, byte(num(y).Int64()))
			}
			return fmt.Sprintf("%s(%q)", tn(t), string(b))
		}
		if !isT {
			panic(litErr{"basic"})
		}
		switch {
		case isBool(t):
			return fmt.Sprintf("%s(%v)", tn(t), boolv(x))
		case isString(t):
			if x.sort != "Seq" {
				panic(litErr{"opaque string"})
			}
			return fmt.Sprintf("%s(%q)", tn(t), string(seq(x)))
		default:
			if b, s, ok := intInfo(t); ok {
				n := num(x)
				if s && isBV(x.sort) && n.Bit(b-1) == 1 {
					n = new(big.Int).Sub(n, new(big.Int).Lsh(big.NewInt(1), uint(b)))
				}
				return fmt.Sprintf("%s(%s)", tn(t), n)
			}
		}
	case *types.Pointer:
		p, ok := v.(Ptr)
		if !ok {
			panic(litErr{"ptr"})
		}
		if p.obj == 0 {
			return "nil"
		}
		return fmt.Sprintf("func() %s { v := %s; return &v }()", tn(t), ex.literal(st, st.heap.get(p.obj).v, u.Elem(), m, pkg))
	case *types.Struct:
		if isZ(t) || isBigInt(t) {
			panic(litErr{"bigint"})
		}
		s, ok := v.(*Struct)
		if !ok {
			panic(litErr{"struct"})
		}
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != pkg {
			panic(litErr{"foreign struct"})
		}
		var fs []string
		for i := range s.f {
			fs = append(fs, u.Field(i).Name()+": "+ex.literal(st, s.f[i], u.Field(i).Type(), m, pkg))
		}
		return tn(t) + "{" + strings.Join(fs, ", ") + "}"
	case *types.Array:
		switch a := v.(type) {
		case *Array:
			var fs []string
			for i := range a.e {
				fs = append(fs, ex.literal(st, a.e[i], u.Elem(), m, pkg))
			}
			return tn(t) + "{" + strings.Join(fs, ", ") + "}"
		case *Term:
			var fs []string
			for _, b := range seq(a) {
				fs = append(fs, fmt.Sprint(b))
			}
			return tn(t) + "{" + strings.Join(fs, ", ") + "}"
		}
	case *types.Slice:
		s, ok := v.(Slice)
		if !ok {
			panic(litErr{"slice"})
		}
		if s.obj == 0 || boolv(s.isnil) {
			return "(" + tn(t) + ")(nil)"
		}
		switch o := st.heap.get(s.obj).v.(type) {
		case *Term:
			ps := seqParts(o)
			if len(ps) == 0 {
				return tn(t) + "{}"
			}
			n := len(seq(ps[0]))
			var fs []string
			for _, p := range ps {
				for _, b := range seq(p) {
					fs = append(fs, fmt.Sprint(b))
				}
			}
			if len(fs) > 4096 {
				panic(litErr{"too long"})
			}
			return fmt.Sprintf("(%s{%s})[:%d]", tn(t), strings.Join(fs, ", "), n)
		case *Array:
			var fs []string
			for i := range o.e {
				fs = append(fs, ex.literal(st, o.e[i], u.Elem(), m, pkg))
			}
			return tn(t) + "{" + strings.Join(fs, ", ") + "}"
		case *SoA:
			n := num(o.n).Int64()
			if n > 6 {
				panic(litErr{"long table"})
			}
			var fs []string
			for i := int64(0); i < n; i++ {
				fs = append(fs, ex.literal(st, ex.soaGet(o, ex.c.Int(i)), u.Elem(), m, pkg))
			}
			return tn(t) + "{" + strings.Join(fs, ", ") + "}"
		}
	}
	panic(litErr{"no literal for " + t.String()})
}

// modelLiteral re-solves a failed obligation and renders its inputs.
func (e *Engine) modelLiteral(r *taskResult, o *Oblig) (lit string, why string) {
	defer func() {
		if p := recover(); p != nil {
			if l, ok := p.(litErr); ok {
				lit, why = "", l.why
				return
			}
			if u, ok := p.(unsupported); ok {
				lit, why = "", u.msg
				return
			}
			panic(p)
		}
	}()
	ex := r.ex
	var leaves []*Term
	for _, in := range ex.inputs {
		ex.collectLeaves(in.st, in.v, &leaves, 0)
	}
	var gv []*Term
	seen := map[*Term]bool{}
	for _, t := range leaves {
		if !seen[t] && !t.isNum() && t.op != "lit" {
			seen[t] = true
			gv = append(gv, t)
		}
	}
	m := model{}
	if len(gv) > 0 {
		names := r.task.ct.solvers
		if len(names) == 0 {
			names = defaultPortfolio
		}
		q := ex.c.query(o.pc, ex.c.Not(o.goal), gv, "std")
		res := runPortfolio(q, names, 20)
		if res.verdict != "sat" {
			return "", "no model"
		}
		i := strings.Index(res.out, "\n")
		sx := parseSexp(res.out[i+1:])
		if len(sx) == 0 || len(sx[0].list) != len(gv) {
			return "", "model not understood"
		}
		for k, p := range sx[0].list {
			if len(p.list) == 2 {
				m[gv[k]] = p.list[1]
			}
		}
	}
	var args []string
	for _, in := range ex.inputs {
		args = append(args, ex.literal(in.st, in.v, in.t, m, r.task.ct.pkg.Pkg))
	}
	return fmt.Sprintf("%q, []interface{}{%s}", r.task.ct.Name, strings.Join(args, ", ")), ""
}

// ---- known findings

type known struct {
	prop, id, what string
}

func loadKnown() []known {
	b, err := os.ReadFile(filepath.Join(*verif, "known-findings.txt"))
	if err != nil {
		return nil
	}
	var out []known
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		k := known{}
		rest := strings.TrimPrefix(l, "known: ")
		for _, w := range strings.Fields(rest) {
			if strings.HasPrefix(w, "property=") {
				k.prop = strings.TrimPrefix(w, "property=")
			}
			if strings.HasPrefix(w, "obligation=") {
				k.id = strings.TrimPrefix(w, "obligation=")
				if i := strings.Index(rest, w); i >= 0 {
					k.what = strings.TrimSpace(rest[i+len(w):])
				}
				break
			}
		}
		out = append(out, k)
	}
	return out
}

func (e *Engine) finish(prop string, results []*taskResult) int {
	kn := loadKnown()
	isKnown := func(ct *Contract, o *Oblig) *known {
		id := ct.Name + "/" + strings.ReplaceAll(o.Name, " ", "-")
		for i := range kn {
			if kn[i].prop == prop && kn[i].id == id {
				return &kn[i]
			}
		}
		return nil
	}
	var bad []*taskResult
	knownHit := map[*known]bool{}
	knownCt := map[string]bool{}
	total, discharged, knownN := 0, 0, 0
	bySolver := map[string]int{}
	for _, r := range results {
		total += len(r.obls)
		isBad := r.unsup != "" || r.crash != "" || len(r.obls) == 0
		hit := false
		for _, o := range r.obls {
			if o.Status == "discharged" {
				discharged++
				bySolver[o.Solver]++
				continue
			}
			if k := isKnown(r.task.ct, o); k != nil && o.Status == "failed" {
				knownHit[k] = true
				knownCt[r.task.ct.Name] = true
				knownN++
				hit = true
				continue
			}
			isBad = true
		}
		if r.vacuous && !hit {
			isBad = true // (a failed obligation ends its path)
		}
		if isBad {
			bad = append(bad, r)
		}
	}
	for i := range kn {
		if kn[i].prop == prop {
			if j := strings.Index(kn[i].id, "/"); j > 0 {
				knownCt[kn[i].id[:j]] = true
			}
		}
	}
	// concrete stage
	var runs []runResult
	var runErrs []string
	violation := ""
	noInput := false
	seed := e.seed
	pkgOf := map[string]string{}
	byDir := map[string][]string{}
	var dirs []string
	badCt := map[string]bool{}
	for _, r := range bad {
		badCt[r.task.ct.Name] = true
	}
	for _, r := range results {
		n := r.task.ct.Name
		if _, ok := pkgOf[n]; ok {
			continue
		}
		d := strings.TrimPrefix(r.task.ct.pkg.Pkg.Path(), modPath)
		pkgOf[n] = d
		if byDir[d] == nil {
			dirs = append(dirs, d)
		}
		byDir[d] = append(byDir[d], n)
	}
	sort.Strings(dirs)
	var found *runResult
	var foundHow string
	record := func(rs []runResult, how string) {
		for i := range rs {
			if rs[i].Fail != "" && found == nil {
				if knownCt[rs[i].Name] {
					continue
				}
				found = &rs[i]
				foundHow = how
			}
		}
		runs = append(runs, rs...)
	}
	var modelNotes []string
	if len(bad) > 0 {
		// 1. the verifier's counterexamples
		lits := map[string]map[string]string{}
		n := 0
		for _, r := range bad {
			for i, o := range r.obls {
				if o.Status == "failed" && isKnown(r.task.ct, o) == nil && n < 8 {
					n++
					l, why := e.modelLiteral(r, o)
					if l == "" {
						modelNotes = append(modelNotes, fmt.Sprintf("%s/%s: no replayable model (%s)", r.task.name(), o.Name, why))
						continue
					}
					d := pkgOf[r.task.ct.Name]
					if lits[d] == nil {
						lits[d] = map[string]string{}
					}
					lits[d][fmt.Sprintf("%s#%d", r.task.name(), i)] = l
				}
			}
		}
		for d, l := range lits {
			rs, out, err := e.concrete(d, runConfig{Lits: true}, l)
			if err != nil {
				runErrs = append(runErrs, trunc(out, 2000))
				// one bad literal must not hide the others
				for k, v := range l {
					rs1, _, err1 := e.concrete(d, runConfig{Lits: true}, map[string]string{k: v})
					if err1 == nil {
						record(rs1, "verifier counterexample")
					}
				}
				continue
			}
			record(rs, "verifier counterexample")
		}
		// 2. search, failing contracts first
		if found == nil && os.Getenv("GOVC_RUNONLY") == "" {
			for _, d := range dirs {
				var ns []string
				for _, n := range byDir[d] {
					if badCt[n] && !knownCt[n] {
						ns = append(ns, n)
					}
				}
				if len(ns) == 0 || found != nil {
					continue
				}
				per := 60.0 / float64(len(ns))
				if per > 20 {
					per = 20
				}
				rs, out, err := e.concrete(d, runConfig{Names: ns, Seed: seed, Seconds: per, Max: 3000000}, nil)
				if err != nil {
					runErrs = append(runErrs, trunc(out, 2000))
				}
				record(rs, "search over the failing contract")
			}
		}
	}
	// 3. every contract of the property on the real code (validates assumed contracts)
	if found == nil && !*noRun {
		for _, d := range dirs {
			var ns []string
			for _, n := range byDir[d] {
				if !knownCt[n] {
					ns = append(ns, n)
				}
			}
			if len(ns) == 0 {
				continue
			}
			per := 12.0 / float64(len(ns))
			if per > 1.5 {
				per = 1.5
			}
			mx := 20000
			if e.tier == "thorough" {
				per, mx = per*10, 1000000
			}
			if len(bad) > 0 {
				per *= 3
			}
			rs, out, err := e.concrete(d, runConfig{Names: ns, Seed: seed, Seconds: per, Max: mx}, nil)
			if err != nil {
				runErrs = append(runErrs, trunc(out, 3000))
			}
			record(rs, "execution of the contracts on the real code")
			if found != nil {
				break
			}
		}
	}
	if os.Getenv("GOVC_RUNONLY") != "" {
		for _, r := range runs {
			fmt.Println("run", r.Name, r.Tried, r.Ran, r.Distinct)
		}
		for _, x := range runErrs {
			fmt.Println("error", x)
		}
	}
	code := 0
	if len(bad) > 0 || found != nil {
		code = 1
		noInput = found == nil
		violation = e.writeReplay(prop, bad, isKnown, found, foundHow, modelNotes, runErrs)
	} else if len(runErrs) > 0 {
		fmt.Fprintln(os.Stderr, "govc: concrete run failed:", runErrs[0])
		code = 2
	}
	for k := range knownHit {
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", prop, k.id, k.what)
	}
	e.writeEvidence(prop, results, runs, total, discharged, knownN, bySolver, len(bad), code)
	fmt.Printf("%s: %d contracts, %d tasks, %d obligations, %d discharged, %.1fs\n", prop, len(pkgOf), len(results), total, discharged, time.Since(e.start).Seconds())
	for _, d := range e.dropped {
		fmt.Println("dropped:", d)
	}
	if code == 1 {
		l := fmt.Sprintf("VIOLATION property=%s replay=%s", prop, violation)
		if noInput {
			l += " no-failing-input-found"
		}
		fmt.Println(l)
	}
	return code
}

func (e *Engine) writeReplay(prop string, bad []*taskResult, isKnown func(*Contract, *Oblig) *known, found *runResult, how string, notes, runErrs []string) string {
	var b strings.Builder
	fmt.Fprintf(&b, "property %s\n\n", prop)
	if found != nil {
		fmt.Fprintf(&b, "FAILING INPUT (%s)\ncontract: %s\nreason: %s (%s)\narguments: %s\nseed %d, iteration %d %s\n", how, found.Name, found.Fail, found.FailKind, found.Input, e.seed, found.Iter, found.Lit)
		fmt.Fprintf(&b, "reproduce: the contract is an executable Go function in /verif/contracts; call it with these arguments in the package (VERIF_SEED=%d /verif/check %s repeats the search)\n\n", e.seed, prop)
		fmt.Printf("failing input for %s: %s: %s\n", found.Name, trunc(found.Fail, 300), trunc(found.Input, 600))
	}
	fmt.Fprintf(&b, "FAILED OBLIGATIONS\n")
	for _, r := range bad {
		fmt.Fprintf(&b, "%s: %s\n", r.task.name(), r.why())
		fmt.Printf("failed: %s: %s\n", r.task.name(), trunc(r.why(), 600))
		for _, o := range r.obls {
			if o.Status != "discharged" && isKnown(r.task.ct, o) == nil {
				fmt.Fprintf(&b, "  obligation %s %q in %s at %s: %s\n    goal: %s\n    solver output: %s\n", o.Kind, o.Name, o.Func, o.Pos, o.Status, trunc(r.ex.c.Str(o.goal), 600), trunc(o.Out, 600))
			}
		}
	}
	for _, n := range notes {
		fmt.Fprintln(&b, n)
	}
	for _, n := range runErrs {
		fmt.Fprintln(&b, "concrete run:", n)
	}
	p := filepath.Join(*verif, "replays", prop+".txt")
	os.MkdirAll(filepath.Dir(p), 0o755)
	os.WriteFile(p, []byte(b.String()), 0o644)
	return p
}

func keys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func (e *Engine) writeEvidence(prop string, results []*taskResult, runs []runResult, total, discharged, knownN int, bySolver map[string]int, bad, code int) {
	ext, inl, mod, notes, targets, bounded := map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{}
	kinds := map[string]int{}
	var slowest float64
	cts := map[string]bool{}
	for _, r := range results {
		cts[r.task.ct.Name] = true
		if r.task.ct.target != nil {
			targets[r.task.ct.target.String()] = true
		}
		if r.task.ct.bounded != "" {
			bounded[r.task.ct.Name+": "+r.task.ct.bounded] = true
		}
		if r.ex != nil {
			for k := range r.ex.externs {
				ext[k] = true
			}
			for k := range r.ex.inlined {
				if !strings.Contains(k, "Contract_") && !strings.Contains(k, ".Spec_") {
					inl[k] = true
				}
			}
			for k := range r.ex.modular {
				mod[k] = true
			}
			for k := range r.ex.notes {
				if !strings.Contains(k, "_ax") && !strings.Contains(k, "axioms") && !strings.HasPrefix(k, "sorted ") && !strings.HasPrefix(k, "idx_") {
					notes[k] = true
				}
			}
		}
		for _, o := range r.obls {
			kinds[o.Kind]++
			if o.Dur > slowest {
				slowest = o.Dur
			}
		}
	}
	assumptions := []string{
		"slice and string lengths are at most 2^40; out-of-memory and stack exhaustion are not modelled",
		"pointer arguments of a contract are non-nil and do not alias unless the contract says otherwise",
		"go/ssa faithfully represents the compiled code; the SMT solvers are sound",
	}
	for _, k := range keys(ext) {
		assumptions = append(assumptions, "assumed contract of dependency: "+k)
	}
	for _, k := range keys(notes) {
		assumptions = append(assumptions, k)
	}
	for _, k := range keys(bounded) {
		assumptions = append(assumptions, "BOUNDED, not proved for all inputs: "+k)
	}
	for _, d := range e.dropped {
		assumptions = append(assumptions, "contract dropped because it no longer type-checks: "+d)
	}
	st := map[string]float64{}
	for k, v := range solverTime {
		st[k] = float64(int(v.Seconds()*100)) / 100
	}
	ev := 0
	dis := 0
	var samples []interface{}
	for _, r := range runs {
		ev += r.Tried
		dis += r.Distinct
		if r.Sample != "" && len(samples) < 3 {
			samples = append(samples, map[string]string{"contract": r.Name, "arguments": trunc(r.Sample, 600)})
		}
	}
	var trusted []string
	trusted = append(trusted, "govc (/verif/govc): go/ssa symbolic execution and verification conditions", "golang.org/x/tools/go/ssa v0.52.0", "cvc5 1.1.2, z3 5.3.2, z3 4.8.12")
	for _, k := range keys(ext) {
		trusted = append(trusted, "assumed: "+k)
	}
	// functions executed as contracts' own spec code are not counted
	var fns []string
	for _, k := range keys(inl) {
		fns = append(fns, strings.ReplaceAll(k, "github.com/ndau/ndaumath/pkg/", ""))
	}
	var tg []string
	for _, k := range keys(targets) {
		tg = append(tg, strings.ReplaceAll(k, "github.com/ndau/ndaumath/pkg/", ""))
	}
	cov := map[string]interface{}{
		"obligations":                 total - knownN,
		"discharged":                  discharged,
		"checker_cmd":                 "/verif/check " + prop,
		"trusted_base":                trusted,
		"contracts":                   keys(cts),
		"functions_under_contract":    tg,
		"functions_executed_in_place": fns,
		"callees_by_contract":         keys(mod),
		"obligations_by_kind":         kinds,
		"discharged_by":               bySolver,
		"solver_seconds":              st,
		"slowest_obligation_s":        slowest,
		"verification_tasks":          len(results),
		"known_finding_obligations":   knownN,
		"bounded":                     keys(bounded),
		"evaluations":                 ev,
		"distinct_nontrivial":         dis,
		"rule":                        "each contract also runs on the real code with generated arguments, to validate the assumed contracts; non-trivial: the precondition held; distinct: by printed arguments",
		"samples":                     samples,
	}
	rep := map[string]interface{}{
		"property": prop, "tier": e.tier, "seed": e.seed, "level": e.level(prop),
		"coverage": cov, "assumptions": assumptions, "wall_s": float64(int(time.Since(e.start).Seconds()*100)) / 100,
		"violations": bad,
	}
	if code == 1 && bad == 0 {
		rep["violations"] = 1
	}
	if err := writeJSON(filepath.Join(*verif, "evidence", prop+".json"), rep); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
}

// level: proof unless every contract of the property is bounded.
func (e *Engine) level(prop string) string {
	for _, c := range e.contracts {
		if c.props[prop] && c.bounded == "" {
			return "proof"
		}
	}
	return "other"
}
