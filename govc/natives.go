package main

// Assumed contracts of the standard library and other dependencies.

import (
	"crypto/hmac"
	"crypto/sha256"
	"crypto/sha512"
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type native func(ex *Exec, st *State, cc *callCtx, args []Val) []outcome

var natives map[string]native

// hashObj is a running hash; its object holds the data written so far.
type hashObj struct {
	kind string
	key  *Term
	obj  int
}

var opaqueHashType types.Type = types.NewNamed(types.NewTypeName(0, nil, "opaqueHash", nil), types.NewStruct(nil, nil), nil)

var hashLens = map[string]int64{"sha256": 32, "sha224": 28, "sha512": 64, "hmac_sha512": 64, "hmac_sha256": 32, "ripemd160": 20}

func (ex *Exec) hashTerm(kind string, key, data *Term) *Term {
	c := ex.c
	if ex.bv {
		unsup("hash in bv mode")
	}
	if data.op == "lit" && (key == nil || key.op == "lit") {
		switch kind {
		case "sha256":
			h := sha256.Sum256([]byte(data.str))
			return c.Lit(string(h[:]))
		case "sha224":
			h := sha256.Sum224([]byte(data.str))
			return c.Lit(string(h[:]))
		case "hmac_sha512":
			m := hmac.New(sha512.New, []byte(key.str))
			m.Write([]byte(data.str))
			return c.Lit(string(m.Sum(nil)))
		}
	}
	var t *Term
	if key != nil {
		t = c.UF(kind, "Seq", key, data)
	} else {
		t = c.UF(kind, "Seq", data)
	}
	return c.FixLen(t, hashLens[kind])
}

func (ex *Exec) hashMethod(st *State, h hashObj, m string, args []Val) []outcome {
	c := ex.c
	cur := st.heap.get(h.obj).v.(*Term)
	switch m {
	case "Write":
		s := args[0].(Slice)
		st.heap.set(h.obj, &Obj{v: c.Cat(cur, ex.bytesOf(st, s)), name: "hash"})
		return ret(st, s.len, Iface{})
	case "Sum":
		s := args[0].(Slice)
		d := ex.newBytes(st, c.Cat(ex.bytesOf(st, s), ex.hashTerm(h.kind, h.key, cur)), "sum")
		if s.obj != 0 {
			ex.note("hash.Sum is modelled as allocating a new slice")
		}
		return ret(st, d)
	case "Reset":
		st.heap.set(h.obj, &Obj{v: c.Lit(""), name: "hash"})
		return ret(st)
	case "Size":
		return ret(st, c.Int(hashLens[h.kind]))
	}
	unsup("hash method %s", m)
	return nil
}

func (ex *Exec) newHash(st *State, kind string, key *Term) Iface {
	return Iface{typ: opaqueHashType, v: hashObj{kind: kind, key: key, obj: ex.newObj(st, nil, ex.c.Lit(""), "hash")}}
}

func strOf(v Val) (string, bool) {
	t, ok := v.(*Term)
	if ok && t.op == "lit" {
		return t.str, true
	}
	if ok && t.op == "strlit" {
		return t.str[2:], true
	}
	if s, ok := v.(*StrVec); ok {
		var b []byte
		for _, x := range s.b {
			if !x.isNum() {
				return "", false
			}
			b = append(b, byte(x.num.Int64()))
		}
		return string(b), true
	}
	return "", false
}

func errNative(ex *Exec, st *State, cc *callCtx, args []Val) []outcome { return ret(st, ex.newErr(st)) }

func wrapNative(ex *Exec, st *State, cc *callCtx, args []Val) []outcome {
	f := args[0].(Iface)
	if f.sym {
		return ret(st, Iface{sym: true, isnil: f.isnil, id: ex.c.Var("wrapped", "Int")})
	}
	if f.typ == nil {
		return ret(st, Iface{})
	}
	return ret(st, ex.newErr(st))
}

// beNum: the number a byte sequence denotes, big endian.
func (ex *Exec) beNum(s *Term) *Term {
	c := ex.c
	if s.op == "lit" {
		return c.Big(new(big.Int).SetBytes([]byte(s.str)))
	}
	if s.op == "uf" && strings.HasPrefix(s.str, "int2be") {
		return s.args[0]
	}
	if s.op == "++" && s.args[0].op == "lit" && strings.Trim(s.args[0].str, "\x00") == "" {
		return ex.beNum(c.Cat(s.args[1:]...))
	}
	t := c.UF("be2int", "Int", s)
	t.lo = new(big.Int)
	if n, ok := c.Len(s).constInt(); ok {
		t.hi = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(8*n)), big.NewInt(1))
	}
	return t
}

func bigPtr(v Val) Ptr {
	p, ok := v.(Ptr)
	if !ok {
		unsup("big.Int operand %T", v)
	}
	return p
}

func (ex *Exec) bigVal(st *State, v Val) *Term {
	p := bigPtr(v)
	if p.obj == 0 {
		unsup("nil *big.Int")
	}
	s, ok := ex.load(st, p).(*Struct)
	if !ok {
		unsup("big.Int content")
	}
	return s.f[0].(*Term)
}

var bigIntType types.Type

func (ex *Exec) bigSet(st *State, v Val, t *Term) {
	p := bigPtr(v)
	old := ex.load(st, p).(*Struct)
	ex.store(st, p, &Struct{t: old.t, f: []Val{t}})
}

func (ex *Exec) bigNew(st *State, typ types.Type, t *Term) Ptr {
	if p, ok := typ.Underlying().(*types.Pointer); ok {
		typ = p.Elem()
	}
	return Ptr{obj: ex.newObj(st, typ, &Struct{t: typ, f: []Val{t}}, "big")}
}

func bigBin(f func(ex *Exec, st *State, a, b *Term) *Term) native {
	return func(ex *Exec, st *State, cc *callCtx, args []Val) []outcome {
		r := f(ex, st, ex.bigVal(st, args[1]), ex.bigVal(st, args[2]))
		ex.bigSet(st, args[0], r)
		return ret(st, args[0])
	}
}

func bigDiv(f func(ex *Exec, st *State, a, b *Term) *Term) native {
	return func(ex *Exec, st *State, cc *callCtx, args []Val) []outcome {
		a, b := ex.bigVal(st, args[1]), ex.bigVal(st, args[2])
		if !ex.oblige(st, "divzero", "big division by non-zero", cc.in.Pos(), ex.c.Not(ex.c.Eq(b, ex.c.Int(0)))) {
			return nil
		}
		ex.bigSet(st, args[0], f(ex, st, a, b))
		return ret(st, args[0])
	}
}

// hasPrefix over sequences.
func (ex *Exec) hasPrefix(s, p *Term) *Term {
	c := ex.c
	n := c.Len(p)
	le := c.Le(n, c.Len(s))
	if le.isFalse() {
		return le
	}
	if k, ok := n.constInt(); ok && le.isTrue() && k <= 16 && s.op == "lit" && p.op != "lit" {
		var cs []*Term
		for i := int64(0); i < k; i++ {
			cs = append(cs, c.Eq(c.Nth(p, c.Int(i)), c.Int(int64(s.str[i]))))
		}
		return c.And(cs...)
	}
	if le.isTrue() {
		return c.Eq(c.Sub3(s, c.Int(0), n), p)
	}
	if k, ok := n.constInt(); ok && k <= 16 && p.op == "lit" {
		cs := []*Term{le}
		for i := int64(0); i < k; i++ {
			cs = append(cs, c.Eq(c.Nth(s, c.Int(i)), c.Int(int64(p.str[i]))))
		}
		return c.And(cs...)
	}
	return c.And(le, c.mk("prefixof", "Bool", nil, "", p, s))
}

func init() {
	natives = map[string]native{
		"errors.New":                             errNative,
		"fmt.Errorf":                             errNative,
		"github.com/pkg/errors.New":              errNative,
		"github.com/pkg/errors.Errorf":           errNative,
		"github.com/pkg/errors.Wrap":             wrapNative,
		"github.com/pkg/errors.Wrapf":            wrapNative,
		"github.com/tinylib/msgp/msgp.WrapError": wrapNative,
		"bytes.Equal": func(ex *Exec, st *State, cc *callCtx, args []Val) []outcome {
			return ret(st, ex.sliceEq(st, args[0].(Slice), args[1].(Slice)))
		},
		"strings.HasPrefix": func(ex *Exec, st *State, cc *callCtx, args []Val) []outcome {
			if a, ok := strOf(args[0]); ok {
				if b, ok := strOf(args[1]); ok {
					return ret(st, ex.c.Bool(strings.HasPrefix(a, b)))
				}
			}
			a, ok1 := args[0].(*Term)
			b, ok2 := args[1].(*Term)
			if !ok1 || !ok2 {
				unsup("HasPrefix in bv mode")
			}
			if a.sort == "Str" {
				return ret(st, ex.strPrefix(a, b))
			}
			return ret(st, ex.hasPrefix(a, b))
		},
		"strings.Compare": func(ex *Exec, st *State, cc *callCtx, args []Val) []outcome {
			if a, ok := strOf(args[0]); ok {
				if b, ok := strOf(args[1]); ok {
					return ret(st, ex.intConst(big.NewInt(int64(strings.Compare(a, b))), types.Typ[types.Int]))
				}
			}
			a, ok1 := args[0].(*Term)
			b, ok2 := args[1].(*Term)
			if !ok1 || !ok2 || a.sort != "Str" {
				unsup("strings.Compare outside opaque mode")
			}
			k := func(v int64) *Term { return ex.intConst(big.NewInt(v), types.Typ[types.Int]) }
			if !ex.merge && ex.pure == 0 && ex.inMerge == 0 {
				eq, lt := ex.strEq(a, b), ex.strLess(a, b)
				var outs []outcome
				for _, o := range []struct {
					g *Term
					v int64
				}{{eq, 0}, {ex.c.And(ex.c.Not(eq), lt), -1}, {ex.c.And(ex.c.Not(eq), ex.c.Not(lt)), 1}} {
					if o.g.isFalse() {
						continue
					}
					s2 := st.clone()
					if ex.assume(s2, o.g) {
						outs = append(outs, outcome{s2, []Val{k(o.v)}})
					}
				}
				return outs
			}
			return ret(st, ex.c.Ite(ex.strEq(a, b), k(0), ex.c.Ite(ex.strLess(a, b), k(-1), k(1))))
		},
		"strings.ToLower": func(ex *Exec, st *State, cc *callCtx, args []Val) []outcome {
			if s, ok := strOf(args[0]); ok {
				return ret(st, ex.strConst(strings.ToLower(s)))
			}
			switch s := args[0].(type) {
			case *Term:
				if s.sort == "Str" {
					return ret(st, ex.c.UF("tolower", "Str", s))
				}
				return ret(st, ex.toLower(s))
			case *StrVec:
				n := &StrVec{}
				for _, b := range s.b {
					up := ex.c.And(ex.c.BVcmp("bvule", ex.c.BV(big.NewInt('A'), 8), b), ex.c.BVcmp("bvule", b, ex.c.BV(big.NewInt('Z'), 8)))
					n.b = append(n.b, ex.c.Ite(up, ex.c.BVop("bvadd", b, ex.c.BV(big.NewInt(32), 8)), b))
				}
				ex.note("strings.ToLower in bv mode assumes ASCII")
				return ret(st, n)
			}
			unsup("ToLower")
			return nil
		},
		"strings.Index": func(ex *Exec, st *State, cc *callCtx, args []Val) []outcome {
			a, ok1 := strOf(args[0])
			if b, ok := strOf(args[1]); ok && ok1 {
				return ret(st, ex.intConst(big.NewInt(int64(strings.Index(a, b))), types.Typ[types.Int]))
			}
			if !ok1 {
				unsup("strings.Index in a symbolic string")
			}
			c := ex.c
			k := func(v int64) *Term { return ex.intConst(big.NewInt(v), types.Typ[types.Int]) }
			var ch func(b byte) *Term
			switch s := args[1].(type) {
			case *Term:
				if n, ok := c.Len(s).constInt(); !ok || n != 1 {
					unsup("strings.Index of a symbolic string of unknown length")
				}
				x := c.Nth(s, c.Int(0))
				ch = func(b byte) *Term { return c.Eq(x, c.Int(int64(b))) }
			case *StrVec:
				if len(s.b) != 1 {
					unsup("strings.Index of longer string")
				}
				ch = func(b byte) *Term { return c.Eq(s.b[0], c.BV(big.NewInt(int64(b)), 8)) }
			}
			r := k(-1)
			for i := len(a) - 1; i >= 0; i-- {
				r = c.Ite(ch(a[i]), k(int64(i)), r)
			}
			if r.sort == "Int" {
				r.lo, r.hi = big.NewInt(-1), big.NewInt(int64(len(a)-1))
			}
			return ret(st, r)
		},
		"crypto/sha256.Sum256": func(ex *Exec, st *State, cc *callCtx, args []Val) []outcome {
			return ret(st, ex.hashTerm("sha256", nil, ex.bytesOf(st, args[0].(Slice))))
		},
		"crypto/sha256.Sum224": func(ex *Exec, st *State, cc *callCtx, args []Val) []outcome {
			return ret(st, ex.hashTerm("sha224", nil, ex.bytesOf(st, args[0].(Slice))))
		},
		"crypto/sha256.New": func(ex *Exec, st *State, cc *callCtx, args []Val) []outcome {
			return ret(st, ex.newHash(st, "sha256", nil))
		},
		"crypto/sha512.New": func(ex *Exec, st *State, cc *callCtx, args []Val) []outcome {
			return ret(st, ex.newHash(st, "sha512", nil))
		},
		"golang.org/x/crypto/ripemd160.New": func(ex *Exec, st *State, cc *callCtx, args []Val) []outcome {
			return ret(st, ex.newHash(st, "ripemd160", nil))
		},
		"crypto/hmac.New": func(ex *Exec, st *State, cc *callCtx, args []Val) []outcome {
			f, ok := args[0].(Func)
			if !ok || f.fn == nil {
				unsup("hmac.New of an unknown hash")
			}
			kind := ""
			switch f.fn.String() {
			case "crypto/sha512.New":
				kind = "hmac_sha512"
			case "crypto/sha256.New":
				kind = "hmac_sha256"
			default:
				unsup("hmac.New of %s", f.fn)
			}
			return ret(st, ex.newHash(st, kind, ex.bytesOf(st, args[1].(Slice))))
		},
		"math/bits.OnesCount64": func(ex *Exec, st *State, cc *callCtx, args []Val) []outcome {
			return ret(st, ex.popcount(args[0].(*Term)))
		},
		"math/bits.TrailingZeros64": func(ex *Exec, st *State, cc *callCtx, args []Val) []outcome {
			t := args[0].(*Term)
			c := ex.c
			if !ex.bv {
				if t.isNum() {
					return ret(st, c.Int(int64(trailing(t.num))))
				}
				unsup("TrailingZeros64 outside bv mode")
			}
			r := c.BV(big.NewInt(64), 64)
			for i := 63; i >= 0; i-- {
				r = c.Ite(c.Eq(c.Extract(t, i, i), c.BV(big.NewInt(1), 1)), c.BV(big.NewInt(int64(i)), 64), r)
			}
			return ret(st, r)
		},
		"github.com/sigurn/crc16.Checksum": func(ex *Exec, st *State, cc *callCtx, args []Val) []outcome {
			if ex.bv {
				return ex.callFn(st, cc.fn, args, nil)
			}
			p, ok := args[1].(Ptr)
			if !ok || p.obj == 0 {
				unsup("crc16 table")
			}
			tab, ok := ex.load(st, p).(*Struct)
			if !ok {
				unsup("crc16 table content")
			}
			name := "crc16"
			for _, f := range tab.f[0].(*Struct).f {
				if t, ok := f.(*Term); ok {
					if !t.isNum() && t.op != "true" && t.op != "false" && t.op != "lit" && t.op != "strlit" {
						unsup("crc16 parameters")
					}
					if t.op == "lit" || t.op == "strlit" {
						continue
					}
					name += "_" + ex.c.Str(t)
				}
			}
			t := ex.c.UF(sanitize(name), "Int", ex.bytesOf(st, args[0].(Slice)))
			t.lo, t.hi = new(big.Int), big.NewInt(65535)
			return ret(st, t)
		},
		"encoding/base32.NewEncoding": func(ex *Exec, st *State, cc *callCtx, args []Val) []outcome {
			s, ok := strOf(args[0])
			if !ok {
				unsup("base32 alphabet")
			}
			seen := map[byte]bool{}
			for i := 0; i < len(s); i++ {
				if seen[s[i]] || s[i] == '\n' || s[i] == '\r' || s[i] == '=' {
					ex.oblige(st, "panic", "base32 alphabet has distinct characters", cc.in.Pos(), ex.c.Bool(false))
					return nil
				}
				seen[s[i]] = true
			}
			if len(s) != 32 {
				ex.oblige(st, "panic", "base32 alphabet has 32 characters", cc.in.Pos(), ex.c.Bool(false))
				return nil
			}
			return ret(st, Ptr{obj: ex.newObj(st, nil, ex.c.mk("strlit", "Str", nil, "s:"+s), "base32")})
		},
		"(*encoding/base32.Encoding).EncodeToString": func(ex *Exec, st *State, cc *callCtx, args []Val) []outcome {
			return ret(st, ex.b32enc(st, args[0], ex.bytesOf(st, args[1].(Slice))))
		},
		"(*encoding/base32.Encoding).DecodeString": func(ex *Exec, st *State, cc *callCtx, args []Val) []outcome {
			return ex.b32dec(st, args[0], args[1].(*Term))
		},
		"(*encoding/base64.Encoding).EncodeToString": func(ex *Exec, st *State, cc *callCtx, args []Val) []outcome {
			b := ex.bytesOf(st, args[1].(Slice))
			t := ex.c.UF("b64enc", "Seq", b)
			ex.c.Fact(t, ex.c.Eq(ex.c.UF("b64ok", "Bool", t), ex.c.Bool(true)))
			ex.c.Fact(t, ex.c.Eq(ex.c.UF("b64dec", "Seq", t), b))
			return ret(st, t)
		},
		"(*encoding/base64.Encoding).DecodeString": func(ex *Exec, st *State, cc *callCtx, args []Val) []outcome {
			s := args[1].(*Term)
			if s.op == "uf" && s.str == "b64enc" {
				return ret(st, ex.newBytes(st, s.args[0], "b64"), Iface{})
			}
			ok := ex.c.UF("b64ok", "Bool", s)
			r := ex.c.UF("b64dec", "Seq", s)
			return ret(st, ex.newBytes(st, r, "b64"), Iface{sym: true, isnil: ok, id: ex.c.Var("b64err", "Int")})
		},
		"math/big.NewInt": func(ex *Exec, st *State, cc *callCtx, args []Val) []outcome {
			return ret(st, ex.bigNew(st, cc.fn.Signature.Results().At(0).Type(), args[0].(*Term)))
		},
		"(*math/big.Int).SetInt64": func(ex *Exec, st *State, cc *callCtx, args []Val) []outcome {
			ex.bigSet(st, args[0], args[1].(*Term))
			return ret(st, args[0])
		},
		"(*math/big.Int).SetUint64": func(ex *Exec, st *State, cc *callCtx, args []Val) []outcome {
			ex.bigSet(st, args[0], args[1].(*Term))
			return ret(st, args[0])
		},
		"(*math/big.Int).Set": func(ex *Exec, st *State, cc *callCtx, args []Val) []outcome {
			ex.bigSet(st, args[0], ex.bigVal(st, args[1]))
			return ret(st, args[0])
		},
		"(*math/big.Int).SetBytes": func(ex *Exec, st *State, cc *callCtx, args []Val) []outcome {
			ex.bigSet(st, args[0], ex.beNum(ex.bytesOf(st, args[1].(Slice))))
			return ret(st, args[0])
		},
		"(*math/big.Int).Bytes": func(ex *Exec, st *State, cc *callCtx, args []Val) []outcome {
			c := ex.c
			v := ex.bigVal(st, args[0])
			if v.isNum() {
				return ret(st, ex.newBytes(st, c.Lit(string(v.num.Bytes())), "bigbytes"))
			}
			if _, hi := c.Range(v, st.bd); hi != nil && hi.BitLen() <= 256 {
				// one case for each length
				var outs []outcome
				for k := 0; k <= (hi.BitLen()+7)/8; k++ {
					s2 := st.clone()
					lim := new(big.Int).Lsh(big.NewInt(1), uint(8*k))
					ok := c.Lt(v, c.Big(lim))
					if k > 0 {
						ok = c.And(ok, c.Le(c.Big(new(big.Int).Rsh(lim, 8)), v))
					}
					if !ex.assume(s2, ok) {
						continue
					}
					t := c.Lit("")
					if k > 0 {
						t = c.FixLen(c.UF(fmt.Sprintf("int2be%d", k), "Seq", v), int64(k))
						c.Fact(t, c.Or(c.Not(ok), c.mk("=", "Bool", nil, "", c.UF("be2int", "Int", t), v)))
					}
					outs = append(outs, ret(s2, ex.newBytes(s2, t, "bigbytes"))...)
				}
				return outs
			}
			t := c.UF("int2be", "Seq", v)
			l := c.mk("len", "Int", nil, "", t)
			for _, k := range []int{31, 32} {
				lim := new(big.Int).Lsh(big.NewInt(1), uint(8*k))
				c.Fact(t, c.Or(c.Le(c.Big(lim), v), c.mk("<=", "Bool", nil, "", l, c.Int(int64(k)))))
				c.Fact(t, c.Or(c.Lt(v, c.Big(lim)), c.mk("<=", "Bool", nil, "", c.Int(int64(k+1)), l)))
			}
			c.Fact(t, c.mk("=", "Bool", nil, "", c.UF("be2int", "Int", t), v))
			return ret(st, ex.newBytes(st, t, "bigbytes"))
		},
		"(*math/big.Int).FillBytes": func(ex *Exec, st *State, cc *callCtx, args []Val) []outcome {
			c := ex.c
			v := ex.bigVal(st, args[0])
			buf := args[1].(Slice)
			n, ok := buf.len.constInt()
			if !ok {
				unsup("FillBytes of symbolic length")
			}
			fits := c.Lt(v, c.Big(new(big.Int).Lsh(big.NewInt(1), uint(8*n))))
			if !ex.oblige(st, "panic", "FillBytes: the number fits the buffer", cc.in.Pos(), fits) {
				return nil
			}
			t := c.FixLen(c.UF(fmt.Sprintf("int2be_fill%d", n), "Seq", v), n)
			c.Fact(t, c.Or(c.Not(fits), c.mk("=", "Bool", nil, "", c.UF("be2int", "Int", t), v)))
			if v.isNum() && fits.isTrue() {
				b := make([]byte, n)
				v.num.FillBytes(b)
				t = c.Lit(string(b))
			}
			ex.setBytes(st, buf, t)
			return ret(st, buf)
		},
		"unicode/utf8.Valid": func(ex *Exec, st *State, cc *callCtx, args []Val) []outcome {
			return ret(st, ex.utf8Valid(ex.bytesOf(st, args[0].(Slice))))
		},
		"unicode/utf8.ValidString": func(ex *Exec, st *State, cc *callCtx, args []Val) []outcome {
			return ret(st, ex.utf8Valid(args[0].(*Term)))
		},
		"(*math/big.Int).Add": bigBin(func(ex *Exec, st *State, a, b *Term) *Term { return ex.c.Add(a, b) }),
		"(*math/big.Int).Sub": bigBin(func(ex *Exec, st *State, a, b *Term) *Term { return ex.c.Sub(a, b) }),
		"(*math/big.Int).Mul": bigBin(func(ex *Exec, st *State, a, b *Term) *Term { return ex.c.Mul(a, b) }),
		"(*math/big.Int).Mod": bigDiv(func(ex *Exec, st *State, a, b *Term) *Term { return ex.c.Mod(a, b) }),
		"(*math/big.Int).Div": bigDiv(func(ex *Exec, st *State, a, b *Term) *Term { return ex.c.Div(a, b) }),
		"(*math/big.Int).Quo": bigDiv(func(ex *Exec, st *State, a, b *Term) *Term { return ex.quo(st, a, b) }),
		"(*math/big.Int).Rem": bigDiv(func(ex *Exec, st *State, a, b *Term) *Term {
			return ex.c.Sub(a, ex.c.Mul(b, ex.quo(st, a, b)))
		}),
		"(*math/big.Int).Cmp": func(ex *Exec, st *State, cc *callCtx, args []Val) []outcome {
			a, b := ex.bigVal(st, args[0]), ex.bigVal(st, args[1])
			c := ex.c
			r := c.Ite(c.Lt(a, b), c.Int(-1), c.Ite(c.Eq(a, b), c.Int(0), c.Int(1)))
			return ret(st, r)
		},
		"(*math/big.Int).Sign": func(ex *Exec, st *State, cc *callCtx, args []Val) []outcome {
			a := ex.bigVal(st, args[0])
			c := ex.c
			return ret(st, c.Ite(c.Lt(a, c.Int(0)), c.Int(-1), c.Ite(c.Eq(a, c.Int(0)), c.Int(0), c.Int(1))))
		},
		"(*math/big.Int).IsInt64": func(ex *Exec, st *State, cc *callCtx, args []Val) []outcome {
			lo, hi := intRange(64, true)
			a := ex.bigVal(st, args[0])
			return ret(st, ex.c.And(ex.c.Le(ex.c.Big(lo), a), ex.c.Le(a, ex.c.Big(hi))))
		},
		"(*math/big.Int).IsUint64": func(ex *Exec, st *State, cc *callCtx, args []Val) []outcome {
			lo, hi := intRange(64, false)
			a := ex.bigVal(st, args[0])
			return ret(st, ex.c.And(ex.c.Le(ex.c.Big(lo), a), ex.c.Le(a, ex.c.Big(hi))))
		},
		"(*math/big.Int).Int64": func(ex *Exec, st *State, cc *callCtx, args []Val) []outcome {
			return ret(st, ex.wrap(st, ex.bigVal(st, args[0]), types.Typ[types.Int64]))
		},
		"(*math/big.Int).Uint64": func(ex *Exec, st *State, cc *callCtx, args []Val) []outcome {
			return ret(st, ex.wrap(st, ex.bigVal(st, args[0]), types.Typ[types.Uint64]))
		},
		"fmt.Sprintf": func(ex *Exec, st *State, cc *callCtx, args []Val) []outcome {
			if outs, ok := ex.sprintfExact(st, args[0], args[1].(Slice)); ok {
				return outs
			}
			return ret(st, ex.sprintf(st, args[0], args[1].(Slice)))
		},
		"reflect.TypeOf": func(ex *Exec, st *State, cc *callCtx, args []Val) []outcome {
			f := args[0].(Iface)
			if f.sym {
				unsup("reflect.TypeOf symbolic interface")
			}
			if f.typ == nil {
				return ret(st, Iface{})
			}
			return ret(st, Iface{typ: opaqueHashType, v: RType{f.typ}})
		},
		"reflect.ValueOf": func(ex *Exec, st *State, cc *callCtx, args []Val) []outcome {
			f := args[0].(Iface)
			if f.sym {
				unsup("reflect.ValueOf symbolic interface")
			}
			return ret(st, RValue{t: f.typ, v: f.v})
		},
		"reflect.Indirect": func(ex *Exec, st *State, cc *callCtx, args []Val) []outcome {
			r := args[0].(RValue)
			if r.t == nil {
				return ret(st, r)
			}
			if p, ok := r.t.Underlying().(*types.Pointer); ok {
				pv := r.v.(Ptr)
				if pv.obj == 0 {
					return ret(st, RValue{})
				}
				return ret(st, RValue{t: p.Elem(), v: ex.load(st, pv)})
			}
			return ret(st, r)
		},
		"reflect.New": func(ex *Exec, st *State, cc *callCtx, args []Val) []outcome {
			f, ok := args[0].(Iface)
			if !ok || f.typ == nil {
				ex.oblige(st, "panic", "reflect.New of nil type unreachable", cc.in.Pos(), ex.c.Bool(false))
				return nil
			}
			t := f.v.(RType).t
			return ret(st, RValue{t: types.NewPointer(t), v: Ptr{obj: ex.newObj(st, t, ex.zero(t), "reflectnew")}})
		},
		"(reflect.Value).Interface": func(ex *Exec, st *State, cc *callCtx, args []Val) []outcome {
			r := args[0].(RValue)
			if r.t == nil {
				ex.oblige(st, "panic", "reflect Interface of zero Value unreachable", cc.in.Pos(), ex.c.Bool(false))
				return nil
			}
			return ret(st, Iface{typ: r.t, v: r.v})
		},
		"(reflect.Value).Type": func(ex *Exec, st *State, cc *callCtx, args []Val) []outcome {
			r := args[0].(RValue)
			if r.t == nil {
				ex.oblige(st, "panic", "reflect Type of zero Value unreachable", cc.in.Pos(), ex.c.Bool(false))
				return nil
			}
			return ret(st, Iface{typ: opaqueHashType, v: RType{r.t}})
		},
		"(reflect.Value).Kind": func(ex *Exec, st *State, cc *callCtx, args []Val) []outcome {
			r := args[0].(RValue)
			return ret(st, ex.intConst(big.NewInt(kindOf(r.t)), types.Typ[types.Uint]))
		},
		"strings.Join": joinNative,
	}
}

func kindOf(t types.Type) int64 {
	if t == nil {
		return 0
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return 22
	case *types.Struct:
		return 25
	case *types.Slice:
		return 23
	case *types.Interface:
		return 20
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return 1
		case types.Int:
			return 2
		case types.String:
			return 24
		}
	}
	unsup("reflect kind of %s", t)
	return 0
}

func reflTypeMethod(ex *Exec, st *State, r RType, m string) []outcome {
	switch m {
	case "Kind":
		return ret(st, ex.intConst(big.NewInt(kindOf(r.t)), types.Typ[types.Uint]))
	case "Elem":
		p, ok := r.t.Underlying().(*types.Pointer)
		if !ok {
			unsup("reflect Elem of %s", r.t)
		}
		return ret(st, Iface{typ: opaqueHashType, v: RType{p.Elem()}})
	case "Name":
		n := ""
		if nt, ok := r.t.(*types.Named); ok {
			n = nt.Obj().Name()
		}
		return ret(st, ex.strConst(n))
	}
	unsup("reflect.Type.%s", m)
	return nil
}

func trailing(v *big.Int) int {
	if v.Sign() == 0 {
		return 64
	}
	return int(v.TrailingZeroBits())
}

func (ex *Exec) popcount(t *Term) *Term {
	c := ex.c
	if t.isNum() {
		n := 0
		for i := 0; i < t.num.BitLen(); i++ {
			n += int(t.num.Bit(i))
		}
		return ex.intConst(big.NewInt(int64(n)), types.Typ[types.Int])
	}
	if !ex.bv {
		unsup("OnesCount64 outside bv mode")
	}
	w := bvw(t.sort)
	r := c.BV(new(big.Int), 64)
	for i := 0; i < w; i++ {
		r = c.BVop("bvadd", r, c.ZExt(c.Extract(t, i, i), 64))
	}
	return r
}

// ---- base32: an assumed contract over an uninterpreted bijection

func (ex *Exec) b32name(st *State, enc Val) (string, string) {
	p, ok := enc.(Ptr)
	if !ok || p.obj == 0 {
		unsup("base32 encoding")
	}
	a := st.heap.get(p.obj).v.(*Term).str[2:]
	return hashStr(a), a
}

func (ex *Exec) b32enc(st *State, enc Val, src *Term) *Term {
	c := ex.c
	h, alpha := ex.b32name(st, enc)
	c.b32alpha[h] = alpha
	t := c.UF("b32enc_"+h, "Seq", src)
	n := c.Len(src)
	if k, ok := n.constInt(); ok {
		c.FixLen(t, (k+4)/5*8)
	} else {
		l := c.mk("len", "Int", nil, "", t)
		c.Fact(t, c.mk("=", "Bool", nil, "", l, c.Mul(c.Int(8), c.Div(c.Add(n, c.Int(4)), c.Int(5)))))
	}
	c.Fact(t, c.UF("b32ok_"+h, "Bool", t))
	c.Fact(t, c.mk("=", "Bool", nil, "", c.UF("b32dec_"+h, "Seq", t), src))
	if strings.ToLower(alpha) == alpha {
		c.Fact(t, c.mk("=", "Bool", nil, "", c.UF("tolower", "Seq", t), t))
	}
	// character groups: characters depend only on their own 5-byte group
	return t
}

// b32dec: success iff the text is a legal encoding; a result of text that has
// no padding or line breaks re-encodes to the same text.
func (ex *Exec) b32dec(st *State, enc Val, s *Term) []outcome {
	c := ex.c
	h, alpha := ex.b32name(st, enc)
	c.b32alpha[h] = alpha
	if s.op == "uf" && s.str == "b32enc_"+h {
		return ret(st, ex.newBytes(st, s.args[0], "b32"), Iface{})
	}
	ok := c.UF("b32ok_"+h, "Bool", s)
	r := c.UF("b32dec_"+h, "Seq", s)
	n := c.Len(s)
	// decoding never yields more than 5 bytes per 8 characters
	rl := c.mk("len", "Int", nil, "", r)
	c.Fact(r, c.mk("<=", "Bool", nil, "", c.Mul(c.Int(8), rl), c.Mul(c.Int(5), n)))
	// exactly 5/8 of the characters decoded: nothing was skipped, so the text is the encoding
	e := c.UF("b32enc_"+h, "Seq", r)
	c.Fact(r, c.Or(c.Not(ok), c.Not(c.mk("=", "Bool", nil, "", c.Mul(c.Int(8), rl), c.Mul(c.Int(5), n))), c.mk("=", "Bool", nil, "", e, s)))
	err := Iface{sym: true, isnil: ok, id: c.Var("b32err", "Int")}
	return ret(st, ex.newBytes(st, r, "b32"), err)
}

func (ex *Exec) toLower(s *Term) *Term {
	c := ex.c
	if s.op == "uf" && (s.str == "tolower" || (strings.HasPrefix(s.str, "b32enc_") && len(ex.c.facts[s]) > 0 && ex.lowerEnc(s))) {
		return s
	}
	if s.op == "++" {
		var ps []*Term
		for _, a := range s.args {
			ps = append(ps, ex.toLower(a))
		}
		return c.Cat(ps...)
	}
	if s.op == "unit" {
		x := s.args[0]
		return c.Unit(c.Ite(c.And(c.Le(c.Int('A'), x), c.Le(x, c.Int('Z'))), c.Add(x, c.Int(32)), x))
	}
	if s.op == "lit" {
		return c.Lit(strings.ToLower(s.str))
	}
	t := c.UF("tolower", "Seq", s)
	c.Fact(t, c.mk("=", "Bool", nil, "", c.UF("tolower", "Seq", t), t))
	return t
}

func (ex *Exec) lowerEnc(s *Term) bool {
	for _, f := range ex.c.facts[s] {
		if f.op == "=" {
			for _, a := range f.args {
				if a.op == "uf" && a.str == "tolower" {
					return true
				}
			}
		}
	}
	return false
}

func (ex *Exec) strPrefix(a, b *Term) *Term {
	if a.op == "strlit" && b.op == "strlit" {
		return ex.c.Bool(strings.HasPrefix(a.str, b.str))
	}
	return ex.c.UF("strprefix", "Bool", a, b)
}

// sprintf: an uninterpreted function of the format and the arguments.
func (ex *Exec) sprintf(st *State, f Val, as Slice) Val {
	format, ok := strOf(f)
	vs, ok2 := ex.vecOf(st, as)
	if !ok || !ok2 || (ex.bv && !ex.opaque) {
		return ex.freshStr(st, "sprintf")
	}
	srt := "Seq"
	if ex.opaque {
		srt = "Str"
	}
	var ts []*Term
	sig := format
	for _, v := range vs {
		i, ok := v.(Iface)
		if !ok {
			return ex.freshStr(st, "sprintf")
		}
		t, ok := i.v.(*Term)
		if !ok {
			return ex.freshStr(st, "sprintf")
		}
		sig += "|" + t.sort + i.typ.String()
		ts = append(ts, t)
	}
	return ex.c.UF("sprintf_"+hashStr(sig), srt, ts...)
}

func joinNative(ex *Exec, st *State, cc *callCtx, args []Val) []outcome {
	s := args[0].(Slice)
	vs, ok := ex.vecOf(st, s)
	if !ok {
		unsup("strings.Join of symbolic length")
	}
	c := ex.c
	var ts []*Term
	for _, v := range vs {
		t, ok := v.(*Term)
		if !ok {
			unsup("strings.Join of %T", v)
		}
		ts = append(ts, t)
	}
	if ex.opaque {
		sep := args[1].(*Term)
		return ret(st, c.UF(fmt.Sprintf("join_%d", len(ts)), "Str", append([]*Term{sep}, ts...)...))
	}
	if ex.bv {
		unsup("strings.Join in bv mode")
	}
	sep := args[1].(*Term)
	var ps []*Term
	for i, t := range ts {
		if i > 0 {
			ps = append(ps, sep)
		}
		ps = append(ps, t)
	}
	return ret(st, c.Cat(ps...))
}

var _ = token.NoPos
var _ ssa.Value

// utf8Valid: texts made of ASCII pieces are valid; of others nothing is known.
func (ex *Exec) utf8Valid(t *Term) *Term {
	ascii := true
	for _, p := range seqParts(t) {
		switch {
		case p.op == "lit":
			for i := 0; i < len(p.str); i++ {
				ascii = ascii && p.str[i] < 128
			}
		case p.op == "uf" && strings.HasPrefix(p.str, "b32enc_"), p.op == "uf" && p.str == "b64enc":
		default:
			ascii = false
		}
	}
	if ascii {
		return ex.c.Bool(true)
	}
	return ex.c.UF("utf8valid", "Bool", t)
}

// setBytes overwrites the content of a slice with a sequence of its length.
func (ex *Exec) setBytes(st *State, d Slice, t *Term) {
	c := ex.c
	if d.obj == 0 {
		return
	}
	o := st.heap.get(d.obj)
	a, ok := o.v.(*Term)
	if !ok {
		unsup("write into %T", o.v)
	}
	end := c.Add(d.off, d.len)
	nv := c.Cat(c.Sub3(a, c.Int(0), d.off), t, c.Sub3(a, end, c.Sub(c.Len(a), end)))
	st.heap.set(d.obj, &Obj{t: o.t, v: nv, name: o.name, ro: o.ro})
}
