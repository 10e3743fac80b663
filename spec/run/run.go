// Package run executes contracts concretely: to replay a verifier
// counterexample against the real code, to look for a failing input of an
// obligation the verifier left open, and to validate the assumed contracts of
// dependencies.
package run

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"runtime/debug"
	"strings"
	"time"
	"unsafe"

	"verif.local/spec"
)

// Config is read from the file named by VERIF_RUN.
type Config struct {
	Names   []string // contracts to run, empty: all
	Seed    int64
	Seconds float64 // budget per contract
	Max     int     // inputs per contract
	From    map[string]int
	Out     string
	Lits    bool // run the literal inputs only
}

// Result is one line per contract.
type Result struct {
	Name     string
	Tried    int
	Ran      int // precondition held
	Fail     string
	FailKind string
	Input    string
	Iter     int
	Lit      string
	Sample   string
	Distinct int
}

// Main runs the contracts.
func Main(contracts map[string]interface{}, gens map[string]interface{}, lits map[string]func() (string, []interface{})) {
	b, err := os.ReadFile(os.Getenv("VERIF_RUN"))
	if err != nil {
		return
	}
	var cfg Config
	if err := json.Unmarshal(b, &cfg); err != nil {
		panic(err)
	}
	out, err := os.OpenFile(cfg.Out, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
	if err != nil {
		panic(err)
	}
	defer out.Close()
	enc := json.NewEncoder(out)
	if cfg.Lits {
		for k, l := range lits {
			name, args := l()
			r := Result{Name: name, Lit: k}
			f := reflect.ValueOf(contracts[name])
			vs := make([]reflect.Value, f.Type().NumIn())
			for i := range vs {
				vs[i] = reflect.ValueOf(args[i])
				if !vs[i].IsValid() {
					vs[i] = reflect.Zero(f.Type().In(i))
				}
			}
			one(&r, f, vs)
			enc.Encode(r)
		}
		return
	}
	for _, n := range cfg.Names {
		c, ok := contracts[n]
		if !ok {
			continue
		}
		f := reflect.ValueOf(c)
		r := Result{Name: n}
		start := time.Now()
		seen := map[string]bool{}
		for i := cfg.From[n]; i < cfg.Max; i++ {
			if i > 20 && time.Since(start).Seconds() > cfg.Seconds {
				break
			}
			rng := rand.New(rand.NewSource(cfg.Seed*1000003 + int64(i)*7919 + hash(n)))
			var vs []reflect.Value
			if g, ok := gens[n]; ok {
				gv := reflect.ValueOf(g)
				in := []reflect.Value{reflect.ValueOf(rng)}
				vs = gv.Call(in)
			} else {
				for k := 0; k < f.Type().NumIn(); k++ {
					vs = append(vs, Gen(rng, f.Type().In(k), 0))
				}
			}
			r.Tried++
			before := r.Ran
			desc := ""
			if r.Sample == "" || len(seen) < 2000 {
				desc = dump(vs)
			}
			one(&r, f, vs)
			if r.Fail != "" {
				r.Iter = i
				break
			}
			if r.Ran > before && desc != "" {
				seen[desc] = true
				r.Sample = desc
			}
		}
		r.Distinct = len(seen)
		enc.Encode(r)
	}
}

func hash(s string) int64 {
	h := int64(17)
	for _, c := range s {
		h = h*31 + int64(c)
	}
	return h & 0xffffff
}

func dump(vs []reflect.Value) string {
	var ss []string
	for _, v := range vs {
		ss = append(ss, show(v))
	}
	s := strings.Join(ss, ", ")
	if len(s) > 4000 {
		s = s[:4000] + "..."
	}
	return s
}

func show(v reflect.Value) (s string) {
	defer func() {
		if r := recover(); r != nil {
			s = "?" + v.Type().String()
		}
	}()
	if v.Kind() == reflect.Ptr && !v.IsNil() {
		return fmt.Sprintf("&%#v", v.Elem().Interface())
	}
	return fmt.Sprintf("%#v", v.Interface())
}

// one runs one input under a watchdog.
func one(r *Result, f reflect.Value, vs []reflect.Value) {
	in := dump(vs)
	// snapshot the caller-visible memory for the frame check
	snaps := make([]reflect.Value, len(vs))
	for i, v := range vs {
		snaps[i] = deepCopy(v, 0)
	}
	spec.ResetModified()
	done := make(chan struct{})
	var fail, kind string
	ran := true
	go func() {
		defer close(done)
		defer func() {
			if p := recover(); p != nil {
				switch x := p.(type) {
				case spec.Skip:
					ran = false
				case spec.Failure:
					fail, kind = x.Msg, "ensures"
				default:
					fail, kind = fmt.Sprintf("panic: %v\n%s", p, trim(string(debug.Stack()))), "panic"
				}
			}
		}()
		f.Call(vs)
	}()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		fail, kind = "no termination within 20 s", "termination"
	}
	if fail == "" && ran {
		for i, v := range vs {
			k := v.Kind()
			if (k == reflect.Ptr || k == reflect.Slice) && !v.IsNil() && !spec.IsModified(v.Interface()) {
				if !same(snaps[i], v) {
					fail, kind = fmt.Sprintf("argument %d changed although the contract does not allow it: before %s after %s", i+1, show(snaps[i]), show(v)), "frame"
				}
			}
		}
	}
	if ran {
		r.Ran++
	}
	if fail != "" {
		r.Fail, r.FailKind, r.Input = fail, kind, in
	}
}

func same(a, b reflect.Value) (ok bool) {
	defer func() {
		if recover() != nil {
			ok = true
		}
	}()
	return reflect.DeepEqual(a.Interface(), b.Interface())
}

func trim(s string) string {
	ls := strings.Split(s, "\n")
	var out []string
	for _, l := range ls {
		if strings.Contains(l, "/repo/pkg/") && !strings.Contains(l, "zz_verif") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) > 6 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// deepCopy copies memory reachable through pointers and slices (bounded depth).
func deepCopy(v reflect.Value, d int) reflect.Value {
	if d > 6 || !v.IsValid() {
		return v
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return v
		}
		n := reflect.New(v.Type().Elem())
		n.Elem().Set(deepCopy(v.Elem(), d+1))
		return n.Convert(v.Type())
	case reflect.Slice:
		if v.IsNil() {
			return v
		}
		n := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		for i := 0; i < v.Len(); i++ {
			n.Index(i).Set(deepCopy(v.Index(i), d+1))
		}
		return n
	case reflect.Struct:
		n := reflect.New(v.Type()).Elem()
		n.Set(v)
		if !v.CanAddr() {
			w := reflect.New(v.Type()).Elem()
			w.Set(v)
			v = w
		}
		for i := 0; i < v.NumField(); i++ {
			sf, df := access(v.Field(i)), access(n.Field(i))
			switch sf.Kind() {
			case reflect.Ptr, reflect.Slice, reflect.Struct, reflect.Array:
				if sf.Kind() == reflect.Ptr {
					continue // shared pointers inside structs are left alone
				}
				df.Set(deepCopy(sf, d+1))
			}
		}
		return n
	}
	return v
}

// access makes an unexported field settable.
func access(v reflect.Value) reflect.Value {
	if v.CanInterface() && v.CanSet() {
		return v
	}
	if !v.CanAddr() {
		return v
	}
	return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
}

var edges = []int64{0, 1, -1, 2, -2, 3, 5, 7, 8, 9, 10, 16, 31, 32, 63, 64, 65, 100, 127, 128, 255, 256, 257, 1000, 65535, 65536, 1 << 31, 1<<31 - 1, -(1 << 31), 1<<32 - 1, 1 << 32, 1<<53 - 1, 1<<62 - 1, 1 << 62, 1<<63 - 1, -1 << 63, -1<<63 + 1, 1000000, 100000000, 1000000000000, 86400000000, 31536000000000, 2592000000000}

// Int is a random integer biased to edges.
func Int(r *rand.Rand) int64 {
	switch r.Intn(6) {
	case 0:
		return edges[r.Intn(len(edges))]
	case 1:
		return edges[r.Intn(len(edges))] + int64(r.Intn(5)-2)
	case 2:
		return int64(r.Intn(300)) - 20
	case 3:
		return r.Int63n(1<<uint(1+r.Intn(62))) - 1
	case 4:
		return -(r.Int63n(1 << uint(1+r.Intn(62))))
	}
	return int64(r.Uint64())
}

// Bytes is a random byte slice of random length, sometimes with spare capacity.
func Bytes(r *rand.Rand, max int) []byte {
	n := r.Intn(max + 1)
	switch r.Intn(4) {
	case 0:
		n = r.Intn(8)
		if n > max {
			n = max
		}
	}
	spare := 0
	if r.Intn(3) == 0 {
		spare = r.Intn(64)
	}
	b := make([]byte, n+spare)
	switch r.Intn(4) {
	case 0:
		for i := range b {
			b[i] = byte(r.Intn(2)) * 255
		}
	case 1:
		for i := range b {
			b[i] = byte(r.Intn(4))
		}
	default:
		r.Read(b)
	}
	return b[:n]
}

// Gen is a random value of a type.
func Gen(r *rand.Rand, t reflect.Type, d int) reflect.Value {
	v := reflect.New(t).Elem()
	fill(r, v, d)
	return v
}

func fill(r *rand.Rand, v reflect.Value, d int) {
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(r.Intn(2) == 0)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(Int(r))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		v.SetUint(uint64(Int(r)))
	case reflect.Float32, reflect.Float64:
		v.SetFloat(r.NormFloat64() * 1e6)
	case reflect.String:
		v.SetString(string(Bytes(r, 80)))
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			v.Set(reflect.ValueOf(Bytes(r, 80)).Convert(v.Type()))
			return
		}
		if r.Intn(8) == 0 {
			return
		}
		n := r.Intn(5)
		s := reflect.MakeSlice(v.Type(), n, n)
		for i := 0; i < n; i++ {
			fill(r, s.Index(i), d+1)
		}
		v.Set(s)
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			fill(r, v.Index(i), d+1)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			fill(r, access(v.Field(i)), d+1)
		}
	case reflect.Ptr:
		if d > 3 {
			return
		}
		n := reflect.New(v.Type().Elem())
		fill(r, n.Elem(), d+1)
		v.Set(n.Convert(v.Type()))
	}
}
