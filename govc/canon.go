package main

import (
	"math/big"
	"math/bits"
	"sort"
)

// Canonical form of bit-vector terms (//govc:canon).  A term whose value
// depends on at most maxSup variable bits is rebuilt from its truth table, so
// equal functions become the same term; exclusive ors of bits are kept as flat
// sets, so that linear cancellation is by construction.  This only rewrites
// terms to equal terms.

const maxSup = 12

type ttab struct {
	sup []*Term // 1-bit (BV1 or Bool) atoms, by id
	v   []uint64
}

type canonState struct {
	memo map[*Term]*ttab
	done map[*Term]*Term
}

func (c *Ctx) canonInit() { c.cs = &canonState{memo: map[*Term]*ttab{}, done: map[*Term]*Term{}} }

func unionSup(ts []*ttab) []*Term {
	seen := map[*Term]bool{}
	var r []*Term
	for _, t := range ts {
		if t == nil {
			return nil
		}
		for _, a := range t.sup {
			if !seen[a] {
				seen[a] = true
				r = append(r, a)
			}
		}
	}
	if len(r) > maxSup {
		return nil
	}
	sort.Slice(r, func(i, j int) bool { return r[i].id < r[j].id })
	if r == nil {
		r = []*Term{}
	}
	return r
}

// spread lists t's values over the assignments of the larger support.
func (t *ttab) spread(sup []*Term) []uint64 {
	pos := make([]int, len(t.sup))
	for i, a := range t.sup {
		for j, b := range sup {
			if a == b {
				pos[i] = j
			}
		}
	}
	r := make([]uint64, 1<<uint(len(sup)))
	for m := range r {
		k := 0
		for i, p := range pos {
			k |= (m >> uint(p) & 1) << uint(i)
		}
		r[m] = t.v[k]
	}
	return r
}

func widthOf(t *Term) int {
	if t.sort == "Bool" {
		return 1
	}
	if isBV(t.sort) {
		return bvw(t.sort)
	}
	return 1000
}

func mask64(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return 1<<uint(w) - 1
}

func sx64(v uint64, w int) int64 { return int64(v<<uint(64-w)) >> uint(64-w) }

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// tt is the truth table of t, nil if it depends on too many bits.
func (c *Ctx) tt(t *Term) *ttab {
	if r, ok := c.cs.memo[t]; ok {
		return r
	}
	r := c.tt0(t)
	c.cs.memo[t] = r
	return r
}

func (c *Ctx) tt0(t *Term) *ttab {
	w := widthOf(t)
	if w > 64 || w == 0 {
		return nil
	}
	opaque := func() *ttab {
		if w > maxSup {
			return nil
		}
		r := &ttab{}
		if w == 1 {
			return &ttab{sup: []*Term{t}, v: []uint64{0, 1}}
		}
		for i := 0; i < w; i++ {
			r.sup = append(r.sup, c.mk("extract", "BV1", nil, itoa2(i), t))
		}
		sort.Slice(r.sup, func(i, j int) bool { return r.sup[i].id < r.sup[j].id })
		r.v = make([]uint64, 1<<uint(w))
		for m := range r.v {
			var x uint64
			for i, a := range r.sup {
				_, lo := exIdx(a)
				x |= uint64(m>>uint(i)&1) << uint(lo)
			}
			r.v[m] = x
		}
		return r
	}
	switch t.op {
	case "bv":
		return &ttab{v: []uint64{t.num.Uint64()}}
	case "true":
		return &ttab{v: []uint64{1}}
	case "false":
		return &ttab{v: []uint64{0}}
	case "var", "uf", "select":
		return opaque()
	case "extract":
		if w == 1 && (t.args[0].op == "var" || t.args[0].op == "uf" || t.args[0].op == "select") {
			return &ttab{sup: []*Term{t}, v: []uint64{0, 1}}
		}
		if t.args[0].op == "var" || t.args[0].op == "uf" || t.args[0].op == "select" {
			if w > maxSup {
				return nil
			}
			hi, lo := exIdx(t)
			var ps []*ttab
			for i := lo; i <= hi; i++ {
				ps = append(ps, c.tt(c.mk("extract", "BV1", nil, itoa2(i), t.args[0])))
			}
			sup := unionSup(ps)
			if sup == nil {
				return nil
			}
			r := &ttab{sup: sup, v: make([]uint64, 1<<uint(len(sup)))}
			for i, p := range ps {
				for m, x := range p.spread(sup) {
					r.v[m] |= x << uint(i)
				}
			}
			return r
		}
	}
	var as []*ttab
	for _, a := range t.args {
		x := c.tt(a)
		if x == nil {
			return nil
		}
		as = append(as, x)
	}
	sup := unionSup(as)
	if sup == nil {
		return nil
	}
	var vs [][]uint64
	for _, a := range as {
		vs = append(vs, a.spread(sup))
	}
	r := &ttab{sup: sup, v: make([]uint64, 1<<uint(len(sup)))}
	aw := 0
	if len(t.args) > 0 {
		aw = widthOf(t.args[0])
	}
	for m := range r.v {
		var x uint64
		at := func(i int) uint64 { return vs[i][m] }
		switch t.op {
		case "concat":
			for i, a := range t.args {
				x = x<<uint(bvw(a.sort)) | at(i)
			}
		case "extract":
			_, lo := exIdx(t)
			x = at(0) >> uint(lo)
		case "sext":
			x = uint64(sx64(at(0), aw))
		case "bvnot":
			x = ^at(0)
		case "bvneg":
			x = -at(0)
		case "not":
			x = at(0) ^ 1
		case "and":
			x = 1
			for i := range vs {
				x &= at(i)
			}
		case "or":
			for i := range vs {
				x |= at(i)
			}
		case "xor1":
			if t.str == "1" {
				x = 1
			}
			for i := range vs {
				x ^= at(i)
			}
		case "ite":
			if at(0) == 1 {
				x = at(1)
			} else {
				x = at(2)
			}
		case "=":
			x = b2u(at(0) == at(1))
		case "bvult":
			x = b2u(at(0) < at(1))
		case "bvule":
			x = b2u(at(0) <= at(1))
		case "bvslt":
			x = b2u(sx64(at(0), aw) < sx64(at(1), aw))
		case "bvsle":
			x = b2u(sx64(at(0), aw) <= sx64(at(1), aw))
		case "bvadd":
			x = at(0) + at(1)
		case "bvsub":
			x = at(0) - at(1)
		case "bvmul":
			x = at(0) * at(1)
		case "bvand":
			x = at(0) & at(1)
		case "bvor":
			x = at(0) | at(1)
		case "bvxor":
			x = at(0) ^ at(1)
		case "bvshl":
			if at(1) < uint64(w) {
				x = at(0) << at(1)
			}
		case "bvlshr":
			if at(1) < uint64(w) {
				x = at(0) >> at(1)
			}
		case "bvashr":
			s := at(1)
			if s > 63 {
				s = 63
			}
			x = uint64(sx64(at(0), w) >> s)
		case "bvudiv":
			if at(1) == 0 {
				x = ^uint64(0)
			} else {
				x = at(0) / at(1)
			}
		case "bvurem":
			if at(1) == 0 {
				x = at(0)
			} else {
				x = at(0) % at(1)
			}
		default:
			return nil
		}
		r.v[m] = x & mask64(w)
	}
	return r
}

func itoa2(i int) string {
	s := big.NewInt(int64(i)).String()
	return s + " " + s
}

// fromTT builds the canonical term of a truth table.
func (c *Ctx) fromTT(t *ttab, srt string) *Term {
	if srt == "Bool" {
		b := c.bitTT(t.sup, t.v, 0)
		return c.bit2bool(b)
	}
	w := bvw(srt)
	var ps []*Term
	for i := w - 1; i >= 0; i-- {
		ps = append(ps, c.bitTT(t.sup, t.v, i))
	}
	return c.concat0(ps...)
}

func (c *Ctx) bit2bool(b *Term) *Term {
	if b.isNum() {
		return c.Bool(b.num.Sign() != 0)
	}
	if b.op == "xor1" && b.str == "1" {
		return c.mk("=", "Bool", nil, "", c.mkXor(b.args, false), c.BV(big.NewInt(0), 1))
	}
	if b.op == "ite" && b.args[1].isNum() && b.args[2].isNum() && b.args[1].num.Sign() == 1 && b.args[2].num.Sign() == 0 {
		return b.args[0]
	}
	return c.mk("=", "Bool", nil, "", b, c.BV(big.NewInt(1), 1))
}

func atomBit(c *Ctx, a *Term) *Term {
	if a.sort == "Bool" {
		return c.mk("ite", "BV1", nil, "", a, c.BV(big.NewInt(1), 1), c.BV(big.NewInt(0), 1))
	}
	return a
}

func (c *Ctx) bitTT(sup []*Term, v []uint64, bit int) *Term {
	n := len(sup)
	f := make([]bool, len(v))
	for m := range v {
		f[m] = v[m]>>uint(bit)&1 == 1
	}
	// affine?
	f0 := f[0]
	var lin []int
	for i := 0; i < n; i++ {
		if f[1<<uint(i)] != f0 {
			lin = append(lin, i)
		}
	}
	lm := 0
	for _, i := range lin {
		lm |= 1 << uint(i)
	}
	affine := true
	for m := range f {
		if f[m] != (f0 != (bits.OnesCount(uint(m&lm))%2 == 1)) {
			affine = false
			break
		}
	}
	if affine {
		var as []*Term
		for _, i := range lin {
			as = append(as, atomBit(c, sup[i]))
		}
		return c.mkXor(as, f0)
	}
	return c.shannon(sup, f)
}

func (c *Ctx) shannon(sup []*Term, f []bool) *Term {
	for len(sup) > 0 {
		n := len(sup)
		h := len(f) / 2
		same := true
		for m := 0; m < h; m++ {
			if f[m] != f[m+h] {
				same = false
				break
			}
		}
		if !same {
			lo, hi := c.shannon(sup[:n-1], f[:h]), c.shannon(sup[:n-1], f[h:])
			g := sup[n-1]
			if g.sort != "Bool" {
				g = c.mk("=", "Bool", nil, "", g, c.BV(big.NewInt(1), 1))
			}
			return c.mk("ite", "BV1", nil, "", g, hi, lo)
		}
		f = f[:h]
		sup = sup[:n-1]
	}
	return c.BV(big.NewInt(int64(b2u(f[0]))), 1)
}

func (c *Ctx) mkXor(as []*Term, k bool) *Term {
	s := "0"
	if k {
		s = "1"
	}
	if len(as) == 0 {
		return c.BV(big.NewInt(int64(b2u(k))), 1)
	}
	if len(as) == 1 && !k {
		return as[0]
	}
	l := append([]*Term(nil), as...)
	sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
	return c.mk("xor1", "BV1", nil, s, l...)
}

// xorBits is the exclusive or of two bits as a flat set.
func (c *Ctx) xorBits(ts ...*Term) *Term {
	set := map[*Term]bool{}
	k := false
	var add func(t *Term)
	add = func(t *Term) {
		switch {
		case t.isNum():
			k = k != (t.num.Sign() != 0)
		case t.op == "xor1":
			k = k != (t.str == "1")
			for _, a := range t.args {
				add(a)
			}
		case t.op == "bvnot":
			k = !k
			add(t.args[0])
		case t.op == "bvxor":
			add(t.args[0])
			add(t.args[1])
		default:
			if set[t] {
				delete(set, t)
			} else {
				set[t] = true
			}
		}
	}
	for _, t := range ts {
		add(t)
	}
	var as []*Term
	for t := range set {
		as = append(as, t)
	}
	r := c.mkXor(as, k)
	if len(as) <= maxSup {
		return c.canonize(r)
	}
	return r
}

// canonize rewrites t to its canonical form.
func (c *Ctx) canonize(t *Term) *Term {
	if c.cs == nil || t.isNum() || t.isTrue() || t.isFalse() || t.op == "var" || t.op == "uf" {
		return t
	}
	if !(t.sort == "Bool" || isBV(t.sort)) {
		return t
	}
	if r, ok := c.cs.done[t]; ok {
		return r
	}
	r := t
	if x := c.tt(t); x != nil {
		r = c.fromTT(x, t.sort)
	}
	c.cs.done[t] = r
	c.cs.done[r] = r
	return r
}

// canonTable is element i of a constant table.
func (c *Ctx) canonTable(vals []*big.Int, w int, i *Term) *Term {
	if w > 64 {
		return nil
	}
	if x := c.tt(i); x != nil {
		r := &ttab{sup: x.sup, v: make([]uint64, len(x.v))}
		for m, k := range x.v {
			if k < uint64(len(vals)) {
				r.v[m] = vals[k].Uint64()
			}
		}
		return c.fromTT(r, bvs(w))
	}
	n := 0
	for 1<<uint(n) < len(vals) {
		n++
	}
	if 1<<uint(n) != len(vals) || n > bvw(i.sort) {
		return nil
	}
	// affine in the bits of the index
	var ps []*Term
	for b := w - 1; b >= 0; b-- {
		f0 := vals[0].Bit(b)
		var as []*Term
		lm := 0
		for j := 0; j < n; j++ {
			if vals[1<<uint(j)].Bit(b) != f0 {
				as = append(as, c.Extract(i, j, j))
				lm |= 1 << uint(j)
			}
		}
		for m := range vals {
			if vals[m].Bit(b) != f0^uint(bits.OnesCount(uint(m&lm))%2) {
				return nil
			}
		}
		as = append(as, c.BV(big.NewInt(int64(f0)), 1))
		ps = append(ps, c.xorBits(as...))
	}
	return c.Concat(ps...)
}

// canonEq is equality of bit vectors, bit by bit for exclusive ors.
func (c *Ctx) canonEq(a, b *Term) *Term {
	w := bvw(a.sort)
	var cs []*Term
	one := c.BV(big.NewInt(1), 1)
	for i := 0; i < w; i++ {
		x := c.xorBits(c.Extract(a, i, i), c.Extract(b, i, i))
		if x.isNum() {
			if x.num.Sign() != 0 {
				return c.Bool(false)
			}
			continue
		}
		k := c.BV(big.NewInt(0), 1)
		if x.op == "xor1" && x.str == "1" {
			x = c.mkXor(x.args, false)
			k = one
		}
		cs = append(cs, c.mk("=", "Bool", nil, "", x, k))
	}
	return c.And(cs...)
}

// xorSums: consequences of the linear equations among the assumptions.
func (c *Ctx) xorSums(assume []*Term) []*Term {
	if c.cs == nil {
		return nil
	}
	type eqn struct {
		set map[*Term]bool
		k   bool
	}
	var es []eqn
	var walk func(t *Term)
	walk = func(t *Term) {
		if t.op == "and" {
			for _, a := range t.args {
				walk(a)
			}
			return
		}
		neg := false
		if t.op == "not" {
			neg = true
			t = t.args[0]
		}
		if t.op != "=" || t.args[0].sort != "BV1" {
			return
		}
		x := c.xorBits(t.args[0], t.args[1])
		if x.op != "xor1" {
			return
		}
		e := eqn{set: map[*Term]bool{}, k: neg != (x.str == "1")}
		for _, a := range x.args {
			e.set[a] = true
		}
		es = append(es, e)
	}
	for _, t := range assume {
		walk(t)
	}
	var r []*Term
	for i := range es {
		for j := 0; j < i; j++ {
			n := 0
			for a := range es[i].set {
				if !es[j].set[a] {
					n++
				}
			}
			if n > 40 {
				continue
			}
			var as []*Term
			for a := range es[i].set {
				if !es[j].set[a] {
					as = append(as, a)
				}
			}
			for a := range es[j].set {
				if !es[i].set[a] {
					as = append(as, a)
				}
			}
			if len(as) > 40 {
				continue
			}
			x := c.mkXor(as, false)
			k := es[i].k != es[j].k
			if x.isNum() {
				if k {
					return []*Term{c.Bool(false)}
				}
				continue
			}
			r = append(r, c.mk("=", "Bool", nil, "", x, c.BV(big.NewInt(int64(b2u(k))), 1)))
		}
	}
	return r
}

// boolBit is the bit of a condition.
func (c *Ctx) boolBit(g *Term) *Term {
	one := c.BV(big.NewInt(1), 1)
	switch {
	case g.op == "not":
		return c.xorBits(c.boolBit(g.args[0]), one)
	case g.op == "=" && g.args[0].sort == "BV1" && g.args[1].isNum():
		if g.args[1].num.Sign() != 0 {
			return g.args[0]
		}
		return c.xorBits(g.args[0], one)
	}
	return c.mk("ite", "BV1", nil, "", g, one, c.BV(big.NewInt(0), 1))
}

// canonIte: a conditional value that is too wide for a truth table, bit by
// bit: bits that differ by a constant are an exclusive or with the condition.
func (c *Ctx) canonIte(g, a, b *Term) *Term {
	if c.tt(c.mk("ite", a.sort, nil, "", g, a, b)) != nil {
		return nil
	}
	w := bvw(a.sort)
	var gb *Term
	ps := make([]*Term, 0, w)
	for i := w - 1; i >= 0; i-- {
		x, y := c.Extract(a, i, i), c.Extract(b, i, i)
		if x == y {
			ps = append(ps, x)
			continue
		}
		d := c.xorBits(x, y)
		switch {
		case d.isNum() && d.num.Sign() == 0:
			ps = append(ps, x)
		case d.isNum():
			if gb == nil {
				gb = c.boolBit(g)
			}
			ps = append(ps, c.xorBits(y, gb))
		default:
			ps = append(ps, c.canonize(c.mk("ite", "BV1", nil, "", g, x, y)))
		}
	}
	return c.Concat(ps...)
}
