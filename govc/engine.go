package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/ndau/ndaumath/pkg/"

type Contract struct {
	Name                                                                 string
	fn                                                                   *ssa.Function
	target                                                               *ssa.Function
	Target                                                               string
	props                                                                map[string]bool
	pkg                                                                  *ssa.Package
	bv, opaque, merge, inline, helper, trusted, thorough, noPrune, model, digits bool
	nomerge                                                              bool
	canon                                                                bool
	lens                                                                 []lenSpec
	unroll                                                               int
	maxMake                                                              int
	timeout                                                              int
	solvers                                                              []string
	bounded                                                              string
	gen                                                                  string
	uses                                                                 []string // optional models
	decl                                                                 *ast.FuncDecl
	failed                                                               bool // helper disabled after failing
	failWhy                                                              string
}

type lenSpec struct {
	name string
	vals []int64
}

type loopAnn struct {
	fn     *ssa.Function
	target *ssa.Function
	ord    int
	name   string
}

type Engine struct {
	prog        *ssa.Program
	pkgs        []*packages.Package
	spkgs       []*ssa.Package
	fset        *token.FileSet
	contracts   []*Contract
	byTarget    map[*ssa.Function]*Contract
	models      map[string]*ssa.Function // Go-coded models of external functions
	optModels   map[string]optModel      // models only for contracts that ask for them
	loopAnns    map[*ssa.Function][]*loopAnn
	mu          sync.Mutex
	pdom        map[*ssa.Function]map[*ssa.BasicBlock]*ssa.BasicBlock
	loops       map[*ssa.Function]map[*ssa.BasicBlock]*loopInfo
	pcache      map[string]bool
	bad         int32 // obligations not discharged so far
	strTabs     map[string]*constTable
	deadline    time.Time
	dropped     []string
	tier        string
	extraInline map[string]bool
	files       map[string]string
	overlay     map[string][]byte // contract files as loaded
	modfile     string
	dirs        []string
	seed        int64
	start       time.Time
}

func (e *Engine) expired() bool { return !e.deadline.IsZero() && time.Now().After(e.deadline) }

func (e *Engine) pruneCache(k string) (bool, bool) {
	e.mu.Lock()
	defer e.mu.Unlock()
	v, ok := e.pcache[k]
	return v, ok
}
func (e *Engine) pruneStore(k string, v bool) {
	e.mu.Lock()
	defer e.mu.Unlock()
	e.pcache[k] = v
}
func (e *Engine) getStrTab(n string) *constTable {
	e.mu.Lock()
	defer e.mu.Unlock()
	return e.strTabs[n]
}
func (e *Engine) putStrTab(n string, t *constTable) {
	e.mu.Lock()
	defer e.mu.Unlock()
	e.strTabs[n] = t
}

// inlinePkg: packages whose function bodies are executed rather than modelled.
// execStd are further packages of which functions that are not modelled are
// executed from their source.
var execStd = map[string]bool{specPath: true, "strings": true, "unicode": true, "unicode/utf8": true, "sort": true, "slices": true, "cmp": true, "math/bits": true}

func (e *Engine) inlinePkg(path string) bool {
	return strings.HasPrefix(path, "github.com/ndau/ndaumath/") || path == "github.com/sigurn/crc16" || e.extraInline[path]
}

// ---- loading

type overlaySet struct {
	dir      string            // temp dir
	files    map[string]string // virtual path in /repo -> real file
	pkgNames []string
}

// findContracts maps each contract file to its place in the repository.
func findContracts(root, repo string) (map[string]string, []string, error) {
	files := map[string]string{}
	pk := map[string]bool{}
	err := filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(root, p)
		d := filepath.Dir(rel)
		files[filepath.Join(repo, "pkg", d, "zz_verif_"+filepath.Base(rel))] = p
		pk[d] = true
		return nil
	})
	var ds []string
	for d := range pk {
		ds = append(ds, d)
	}
	sort.Strings(ds)
	return files, ds, err
}

func newEngine(repo, verif, modfile string, dirs []string, files map[string]string) (*Engine, error) {
	e := &Engine{byTarget: map[*ssa.Function]*Contract{}, models: map[string]*ssa.Function{}, optModels: map[string]optModel{}, loopAnns: map[*ssa.Function][]*loopAnn{},
		pdom: map[*ssa.Function]map[*ssa.BasicBlock]*ssa.BasicBlock{}, loops: map[*ssa.Function]map[*ssa.BasicBlock]*loopInfo{},
		pcache: map[string]bool{}, strTabs: map[string]*constTable{}, extraInline: map[string]bool{"encoding/hex": true, "strconv": true, "github.com/ericlagergren/decimal": true, "internal/strconv": true, "io": true, "bytes": true, "golang.org/x/crypto/ed25519": true, "encoding/binary": true, "encoding/base32": true, "github.com/tinylib/msgp/msgp": true}}
	src := map[string][]byte{}
	want := map[string]bool{}
	for _, d := range dirs {
		want[d] = true
	}
	for v, r := range files {
		d, _ := filepath.Rel(filepath.Join(repo, "pkg"), filepath.Dir(v))
		if !want[d] {
			continue
		}
		b, err := os.ReadFile(r)
		if err != nil {
			return nil, err
		}
		src[v] = b
	}
	var pats []string
	for _, d := range dirs {
		pats = append(pats, modPath+d)
	}
	for try := 0; ; try++ {
		cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Overlay: src,
			BuildFlags: []string{"-modfile=" + modfile}, Env: goEnv()}
		ps, err := packages.Load(cfg, pats...)
		if err != nil {
			return nil, err
		}
		bad := false
		var fatal []string
		packages.Visit(ps, nil, func(p *packages.Package) {
			for _, er := range p.Errors {
				pos := er.Pos // file:line:col
				parts := strings.Split(pos, ":")
				if len(parts) >= 2 {
					if b, ok := src[parts[0]]; ok {
						ln, _ := strconv.Atoi(parts[1])
						nb, name := dropDecl(b, ln)
						if nb != nil {
							src[parts[0]] = nb
							e.dropped = append(e.dropped, fmt.Sprintf("%s (%s)", name, er.Msg))
							bad = true
							continue
						}
					}
				}
				fatal = append(fatal, er.Error())
			}
		})
		if bad && try < 40 {
			continue
		}
		if len(fatal) > 0 {
			return nil, fmt.Errorf("load: %s", strings.Join(fatal, "; "))
		}
		e.pkgs = ps
		break
	}
	e.overlay = src
	prog, spkgs := ssautil.AllPackages(e.pkgs, ssa.GlobalDebug)
	e.prog = prog
	prog.Build()
	e.spkgs = spkgs
	e.fset = prog.Fset
	return e, e.collect()
}

// dropDecl blanks the top-level declaration containing the line.
func dropDecl(b []byte, line int) ([]byte, string) {
	lines := strings.Split(string(b), "\n")
	if line < 1 || line > len(lines) {
		return nil, ""
	}
	// top-level declarations in contract files start in column 0 with "func "
	s := line - 1
	for s >= 0 && !strings.HasPrefix(lines[s], "func ") && !strings.HasPrefix(lines[s], "var ") && !strings.HasPrefix(lines[s], "type ") && !strings.HasPrefix(lines[s], "\t\"") && !strings.HasPrefix(lines[s], "import ") {
		s--
	}
	if s < 0 {
		return nil, ""
	}
	if strings.HasPrefix(lines[s], "\t\"") {
		// unused import after dropping
		n := lines[s]
		lines[s] = "//"
		return []byte(strings.Join(lines, "\n")), "import " + strings.TrimSpace(n)
	}
	name := lines[s]
	e := s
	if !strings.HasSuffix(strings.TrimSpace(lines[s]), "}") || strings.HasSuffix(strings.TrimSpace(lines[s]), "{") || strings.HasSuffix(strings.TrimSpace(lines[s]), "{}") == false {
		for e < len(lines) && lines[e] != "}" && lines[e] != ")" {
			if e > s && strings.HasPrefix(lines[e], "func ") {
				e--
				break
			}
			if e == s && strings.HasPrefix(lines[s], "var ") && !strings.HasSuffix(lines[s], "{") && !strings.HasSuffix(lines[s], "(") {
				break
			}
			if e == s && strings.HasSuffix(lines[s], "}") && !strings.HasSuffix(lines[s], "{") {
				break
			}
			e++
		}
	}
	for i := s; i <= e && i < len(lines); i++ {
		lines[i] = "//"
	}
	// also its doc comment directives
	for i := s - 1; i >= 0 && strings.HasPrefix(lines[i], "//"); i-- {
		lines[i] = "//"
	}
	return []byte(strings.Join(lines, "\n")), name
}

func (e *Engine) collect() error {
	for _, p := range e.pkgs {
		sp := e.prog.Package(p.Types)
		for _, f := range p.Syntax {
			fname := e.fset.Position(f.Pos()).Filename
			if !strings.Contains(fname, "zz_verif_") {
				continue
			}
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Recv != nil {
					continue
				}
				var dirs []string
				if fd.Doc != nil {
					for _, c := range fd.Doc.List {
						if strings.HasPrefix(c.Text, "//govc:") {
							dirs = append(dirs, strings.TrimPrefix(c.Text, "//govc:"))
						}
					}
				}
				if len(dirs) == 0 {
					continue
				}
				fn := sp.Func(fd.Name.Name)
				if fn == nil {
					continue
				}
				if err := e.addContract(sp, fn, fd, dirs); err != nil {
					return err
				}
			}
		}
	}
	return nil
}

func (e *Engine) addContract(sp *ssa.Package, fn *ssa.Function, fd *ast.FuncDecl, dirs []string) error {
	c := &Contract{Name: fd.Name.Name, fn: fn, props: map[string]bool{}, pkg: sp, unroll: 70, timeout: 30, decl: fd}
	c.Name = strings.TrimPrefix(sp.Pkg.Path(), modPath) + "." + fd.Name.Name
	isLoop := ""
	modelOf, optional := "", false
	ord := 1
	for _, d := range dirs {
		w := strings.Fields(d)
		switch w[0] {
		case "needs":
		case "prop":
			for _, p := range w[1:] {
				c.props[p] = true
			}
		case "func":
			c.Target = w[1]
		case "loop":
			isLoop = w[1]
			if len(w) > 2 {
				ord, _ = strconv.Atoi(w[2])
			}
		case "model":
			n := w[1]
			if !strings.Contains(n, ".") {
				n = sp.Pkg.Path() + "." + n
			}
			modelOf = n
			c.model = true
		case "optional": // a model only for the contracts that ask for it
			optional = true
		case "uses":
			c.uses = append(c.uses, w[1:]...)
		case "bv":
			c.bv = true
			c.merge = true
		case "opaque":
			c.opaque = true
		case "merge":
			c.merge = true
		case "canon":
			c.bv, c.merge, c.canon = true, true, true
		case "nomerge":
			c.nomerge = true
		case "inline":
			c.inline = true
		case "helper":
			c.helper = true
		case "trusted":
			c.trusted = true
		case "thorough":
			c.thorough = true
		case "digits":
			c.digits = true
		case "noprune":
			c.noPrune = true
		case "make":
			c.maxMake, _ = strconv.Atoi(w[1])
		case "unroll":
			c.unroll, _ = strconv.Atoi(w[1])
		case "timeout":
			c.timeout, _ = strconv.Atoi(w[1])
		case "solvers":
			c.solvers = strings.Split(w[1], ",")
		case "bounded":
			c.bounded = strings.Join(w[1:], " ")
		case "gen":
			c.gen = "Gen_" + strings.TrimPrefix(w[1], "Gen_")
		case "len":
			c.lens = append(c.lens, lenSpec{w[1], parseVals(w[2])})
		default:
			return fmt.Errorf("%s: unknown directive %q", c.Name, d)
		}
	}
	if c.nomerge {
		c.merge = false
	}
	if isLoop != "" {
		t := e.lookupFunc(sp, isLoop)
		if t == nil {
			e.dropped = append(e.dropped, "loop annotation "+c.Name+": no function "+isLoop)
			return nil
		}
		e.loopAnns[t] = append(e.loopAnns[t], &loopAnn{fn: fn, target: t, ord: ord, name: c.Name})
		return nil
	}
	if c.model {
		if optional {
			e.optModels[fn.Pkg.Pkg.Path()+"."+fn.Name()] = optModel{modelOf, fn}
		} else {
			e.models[modelOf] = fn
		}
		return nil
	}
	if c.Target != "" {
		c.target = e.lookupFunc(sp, c.Target)
		if c.target == nil {
			e.dropped = append(e.dropped, "contract "+c.Name+": no function "+c.Target)
			return nil
		}
		if c.helper {
			e.byTarget[c.target] = c
		}
	}
	e.contracts = append(e.contracts, c)
	return nil
}

func parseVals(s string) []int64 {
	var out []int64
	for _, p := range strings.Split(s, ",") {
		if i := strings.Index(p, ".."); i >= 0 {
			a, _ := strconv.ParseInt(p[:i], 10, 64)
			b, _ := strconv.ParseInt(p[i+2:], 10, 64)
			for k := a; k <= b; k++ {
				out = append(out, k)
			}
		} else {
			a, _ := strconv.ParseInt(p, 10, 64)
			out = append(out, a)
		}
	}
	return out
}

// lookupFunc resolves "F", "T.M" or "(*T).M" in a package, or a fully qualified "path.F".
func (e *Engine) lookupFunc(sp *ssa.Package, name string) *ssa.Function {
	ptr := false
	tn, mn := "", name
	if strings.HasPrefix(name, "(*") {
		ptr = true
		i := strings.Index(name, ").")
		tn, mn = name[2:i], name[i+2:]
	} else if i := strings.LastIndex(name, "."); i >= 0 {
		tn, mn = name[:i], name[i+1:]
	}
	if j := strings.LastIndex(tn, "/"); j >= 0 || (tn != "" && !ptr && sp.Type(tn) == nil) {
		for _, p := range e.prog.AllPackages() {
			if p.Pkg.Path() == tn {
				return p.Func(mn)
			}
		}
		return nil
	}
	if tn == "" {
		return sp.Func(mn)
	}
	t := sp.Type(tn)
	if t == nil {
		return nil
	}
	var typ types.Type = t.Type()
	if ptr {
		typ = types.NewPointer(typ)
	}
	ms := e.prog.MethodSets.MethodSet(typ)
	sel := ms.Lookup(sp.Pkg, mn)
	if sel == nil {
		return nil
	}
	f := e.prog.MethodValue(sel)
	// unwrap promoted-method wrappers to the declared function when receiver matches
	return f
}

// ---- CFG analyses

type loopInfo struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	ord    int
}

func (e *Engine) loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]*loopInfo {
	e.mu.Lock()
	defer e.mu.Unlock()
	if l, ok := e.loops[fn]; ok {
		return l
	}
	out := map[*ssa.BasicBlock]*loopInfo{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				li := out[s]
				if li == nil {
					li = &loopInfo{header: s, body: map[*ssa.BasicBlock]bool{s: true}}
					out[s] = li
				}
				var add func(x *ssa.BasicBlock)
				add = func(x *ssa.BasicBlock) {
					if li.body[x] {
						return
					}
					li.body[x] = true
					for _, p := range x.Preds {
						add(p)
					}
				}
				add(b)
			}
		}
	}
	// source order
	var hs []*ssa.BasicBlock
	for h := range out {
		hs = append(hs, h)
	}
	sort.Slice(hs, func(i, j int) bool { return loopPos(out[hs[i]]) < loopPos(out[hs[j]]) })
	for i, h := range hs {
		out[h].ord = i + 1
	}
	e.loops[fn] = out
	return out
}

func loopPos(l *loopInfo) token.Pos {
	var best token.Pos
	for b := range l.body {
		for _, in := range b.Instrs {
			p := in.Pos()
			if _, ok := in.(*ssa.Phi); ok {
				continue
			}
			if p.IsValid() && (best == 0 || p < best) {
				best = p
			}
		}
	}
	return best
}

func (e *Engine) loopAnnot(fn *ssa.Function, h *ssa.BasicBlock) *loopAnn {
	as := e.loopAnns[fn]
	if len(as) == 0 {
		return nil
	}
	li := e.loopsOf(fn)[h]
	for _, a := range as {
		if a.ord == li.ord {
			return a
		}
	}
	return nil
}

// postdom computes immediate postdominators, ignoring blocks that end in panic.
func (e *Engine) postdom(fn *ssa.Function) map[*ssa.BasicBlock]*ssa.BasicBlock {
	e.mu.Lock()
	defer e.mu.Unlock()
	if m, ok := e.pdom[fn]; ok {
		return m
	}
	n := len(fn.Blocks)
	// reverse graph; virtual exit = n
	idx := map[*ssa.BasicBlock]int{}
	for i, b := range fn.Blocks {
		idx[b] = i
	}
	succs := make([][]int, n+1)
	preds := make([][]int, n+1)
	for i, b := range fn.Blocks {
		if len(b.Instrs) > 0 {
			if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				succs[i] = append(succs[i], n)
				preds[n] = append(preds[n], i)
			}
		}
		for _, s := range b.Succs {
			succs[i] = append(succs[i], idx[s])
			preds[idx[s]] = append(preds[idx[s]], i)
		}
	}
	// order: postorder of reverse graph from exit
	order := []int{}
	seen := make([]bool, n+1)
	var dfs func(i int)
	dfs = func(i int) {
		seen[i] = true
		for _, p := range preds[i] {
			if !seen[p] {
				dfs(p)
			}
		}
		order = append(order, i)
	}
	dfs(n)
	num := make([]int, n+1)
	for k, i := range order {
		num[i] = k
	}
	id := make([]int, n+1)
	for i := range id {
		id[i] = -1
	}
	id[n] = n
	for ch := true; ch; {
		ch = false
		for k := len(order) - 2; k >= 0; k-- {
			i := order[k]
			nw := -1
			for _, s := range succs[i] {
				if !seen[s] || id[s] < 0 {
					continue
				}
				if nw < 0 {
					nw = s
					continue
				}
				a, b := s, nw
				for a != b {
					for num[a] < num[b] {
						a = id[a]
					}
					for num[b] < num[a] {
						b = id[b]
					}
				}
				nw = a
			}
			if nw != id[i] && nw >= 0 {
				id[i] = nw
				ch = true
			}
		}
	}
	out := map[*ssa.BasicBlock]*ssa.BasicBlock{}
	for i, b := range fn.Blocks {
		if seen[i] && id[i] >= 0 && id[i] < n {
			out[b] = fn.Blocks[id[i]]
		}
	}
	e.pdom[fn] = out
	return out
}

func goEnv() []string {
	env := os.Environ()
	set := map[string]string{"GOTOOLCHAIN": "local", "GOPROXY": "off", "GOFLAGS": "-mod=mod", "GOWORK": "off", "GO111MODULE": "on", "GOSUMDB": "off", "GONOSUMDB": "*", "GONOSUMCHECK": "1", "HOME": "/root", "PATH": filepath.Dir(goTool()) + ":" + os.Getenv("PATH")}
	var out []string
	for _, kv := range env {
		k := strings.SplitN(kv, "=", 2)[0]
		if _, ok := set[k]; !ok {
			out = append(out, kv)
		}
	}
	for k, v := range set {
		out = append(out, k+"="+v)
	}
	return out
}

type optModel struct {
	target string
	fn     *ssa.Function
}

// initPkg: packages whose variables have the values that their initialisers give.
func (e *Engine) initPkg(path string) bool {
	return e.inlinePkg(path) || path == "strings" || path == "unicode/utf8"
}
