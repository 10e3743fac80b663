// govc generates verification conditions for the contracts in
// /verif/contracts from the SSA form of the real code in /repo and discharges
// them with the installed SMT solvers.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"
)

var (
	repo    = flag.String("repo", "/repo", "repository under verification")
	verif   = flag.String("verif", "/verif", "verification tree")
	only    = flag.String("only", "", "verify only contracts whose name contains this (development)")
	noRun   = flag.Bool("norun", false, "skip the concrete validation run (development)")
	verbose = flag.Bool("v", false, "report every obligation")
	budget  = flag.Int("budget", 600, "wall-clock budget in seconds")
	listAll = flag.Bool("list", false, "list contracts")
)

func main() {
	flag.Parse()
	args := flag.Args()
	if len(args) < 1 {
		fmt.Fprintln(os.Stderr, "usage: govc [flags] PROPERTY...")
		os.Exit(2)
	}
	nw := runtime.NumCPU()
	if nw > 8 {
		nw = 8
	}
	solverSem = make(chan struct{}, nw)
	var err error
	workDir, err = os.MkdirTemp("", "govc")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	code := 0
	for _, p := range args {
		if c := checkProperty(p); c > code {
			code = c
		}
	}
	if os.Getenv("GOVC_KEEP") == "" {
		os.RemoveAll(workDir)
	} else {
		fmt.Println("work dir", workDir)
	}
	os.Exit(code)
}

// ensureGoMod puts back the untracked go.mod when the copy of the repository lacks it.
func ensureGoMod(repo, verif string) error {
	for _, f := range []string{"go.mod", "go.sum"} {
		if _, err := os.Stat(filepath.Join(repo, f)); err != nil {
			b, err := os.ReadFile(filepath.Join(verif, "build", "ndaumath."+strings.TrimPrefix(f, "go.")))
			if err != nil {
				return err
			}
			if err := os.WriteFile(filepath.Join(repo, f), b, 0o644); err != nil {
				return err
			}
		}
	}
	return nil
}

// makeModfile writes the module file the loads and the concrete runs use.
func makeModfile(verif, dir string) (string, error) {
	b, err := os.ReadFile(filepath.Join(verif, "build", "ndaumath.mod"))
	if err != nil {
		return "", err
	}
	s := string(b)
	s += "\nrequire verif.local/spec v0.0.0\nrequire github.com/ericlagergren/decimal v0.0.0\n"
	s += "replace verif.local/spec => " + filepath.Join(verif, "spec") + "\n"
	s += "replace github.com/ericlagergren/decimal => " + filepath.Join(verif, "stubs", "decimal") + "\n"
	f := filepath.Join(dir, "verif.mod")
	if err := os.WriteFile(f, []byte(s), 0o644); err != nil {
		return "", err
	}
	sum, err := os.ReadFile(filepath.Join(verif, "build", "ndaumath.sum"))
	if err != nil {
		return "", err
	}
	return f, os.WriteFile(filepath.Join(dir, "verif.sum"), sum, 0o644)
}

type report struct {
	Prop    string
	results []*taskResult
	wall    time.Duration
}

func seedEnv() int64 {
	s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		return 1
	}
	return s
}

func tierEnv() string {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return "thorough"
	}
	return "quick"
}

func checkProperty(prop string) int {
	t0 := time.Now()
	fail := func(format string, a ...interface{}) int {
		fmt.Fprintf(os.Stderr, "govc: "+format+"\n", a...)
		return 2
	}
	if err := ensureGoMod(*repo, *verif); err != nil {
		return fail("%v", err)
	}
	mod, err := makeModfile(*verif, workDir)
	if err != nil {
		return fail("%v", err)
	}
	files, _, err := findContracts(filepath.Join(*verif, "contracts"), *repo)
	if err != nil {
		return fail("%v", err)
	}
	// directories with contracts of this property
	dirs := map[string]bool{}
	for v, r := range files {
		b, err := os.ReadFile(r)
		if err != nil {
			return fail("%v", err)
		}
		if mentions(string(b), prop) {
			d, _ := filepath.Rel(filepath.Join(*repo, "pkg"), filepath.Dir(v))
			dirs[d] = true
			for _, l := range strings.Split(string(b), "\n") {
				if strings.HasPrefix(l, "//govc:needs ") {
					for _, w := range strings.Fields(l)[1:] {
						dirs[w] = true
					}
				}
			}
		}
	}
	if len(dirs) == 0 {
		return fail("no contract mentions %s", prop)
	}
	var ds []string
	for d := range dirs {
		ds = append(ds, d)
	}
	sort.Strings(ds)
	e, err := newEngine(*repo, *verif, mod, ds, files)
	if err != nil {
		// code that does not compile is not a verdict
		return fail("%v", err)
	}
	e.tier = tierEnv()
	e.files, e.modfile, e.dirs = files, mod, ds
	e.seed = seedEnv()
	e.start = t0
	if *listAll {
		for _, c := range e.contracts {
			fmt.Println(c.Name, c.Target, c.props)
		}
	}
	return e.check(prop)
}

func mentions(s, prop string) bool {
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "//govc:prop ") {
			for _, w := range strings.Fields(l)[1:] {
				if w == prop {
					return true
				}
			}
		}
	}
	return false
}

func goTool() string {
	for _, p := range []string{"/opt/veriftools/go1.27.3/bin/go"} {
		if _, err := os.Stat(p); err == nil {
			return p
		}
	}
	p, err := exec.LookPath("go")
	if err != nil {
		return "go"
	}
	return p
}

func writeJSON(path string, v interface{}) error {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		return err
	}
	os.MkdirAll(filepath.Dir(path), 0o755)
	return os.WriteFile(path, append(b, '\n'), 0o644)
}
