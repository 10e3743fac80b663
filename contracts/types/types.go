package types

import (
	"math"
	"math/rand"

	"github.com/ndau/ndaumath/pkg/ndauerr"
	"verif.local/spec"
)

//govc:helper
func zz(x int64) spec.Z { return spec.I(x) }

func zzRand(r *rand.Rand) int64 {
	x := int64(r.Uint64()) >> uint(r.Intn(64))
	if r.Intn(4) == 0 {
		x = []int64{0, 1, 2, -1, -2, 1<<63 - 1, -1 << 63, -1<<63 + 1, 100000000, -100000000, 99999999, -99999999}[r.Intn(12)]
	}
	return x
}

func Gen_Two(r *rand.Rand) (int64, int64) { return zzRand(r), zzRand(r) }

func Gen_One(r *rand.Rand) int64 { return zzRand(r) }

//govc:prop C23
//govc:func Ndau.Add
//govc:gen Two
func Contract_NdauAdd(a, b int64) {
	x, err := Ndau(a).Add(Ndau(b))
	w := zz(a).Add(zz(b))
	spec.EnsuresN("an error exactly on overflow", (err == nil) == w.IsI64())
	if err == nil {
		spec.EnsuresN("exact", zz(int64(x)).Eq(w))
	} else {
		spec.EnsuresN("overflow", err == ndauerr.ErrOverflow && x == 0)
	}
}

//govc:prop C23
//govc:func Ndau.Sub
//govc:gen Two
func Contract_NdauSub(a, b int64) {
	x, err := Ndau(a).Sub(Ndau(b))
	w := zz(a).Sub(zz(b))
	spec.EnsuresN("an error exactly on overflow", (err == nil) == w.IsI64())
	if err == nil {
		spec.EnsuresN("exact", zz(int64(x)).Eq(w))
	} else {
		spec.EnsuresN("overflow", err == ndauerr.ErrOverflow && x == 0)
	}
}

// The smallest number has no positive counterpart.
//
//govc:prop C23
//govc:func Ndau.Abs
//govc:bv
//govc:gen One
func Contract_NdauAbs(a int64) {
	spec.Requires(a != math.MinInt64)
	x := Ndau(a).Abs()
	spec.EnsuresN("not negative", x >= 0)
	spec.EnsuresN("same size", int64(x) == a || int64(x) == -a)
}

//govc:prop C23
//govc:func Ndau.Compare
//govc:gen Two
func Contract_NdauCompare(a, b int64) {
	x := Ndau(a).Compare(Ndau(b))
	spec.EnsuresN("less", (x < 0) == (a < b))
	spec.EnsuresN("greater", (x > 0) == (a > b))
	spec.EnsuresN("unit", x >= -1 && x <= 1)
}

//govc:prop C24
//govc:func Timestamp.Compare
//govc:gen Two
func Contract_TimestampCompare(a, b int64) {
	x := Timestamp(a).Compare(Timestamp(b))
	spec.EnsuresN("less", (x < 0) == (a < b))
	spec.EnsuresN("greater", (x > 0) == (a > b))
	spec.EnsuresN("unit", x >= -1 && x <= 1)
}

func Gen_NdauBytes(r *rand.Rand) (int64, []byte) {
	a := make([]byte, r.Intn(5))
	r.Read(a)
	return zzRand(r), a
}

//govc:prop C23
//govc:func Ndau.MarshalMsg
//govc:func (*Ndau).UnmarshalMsg
//govc:func Ndau.Msgsize
//govc:bv
//govc:nomerge
//govc:gen One
func Contract_NdauMsg(a int64) {
	o, err := Ndau(a).MarshalMsg(nil)
	spec.EnsuresN("written", err == nil && len(o) > 0)
	spec.EnsuresN("no longer than estimated", len(o) <= Ndau(a).Msgsize())
	x := Ndau(17)
	rest, err := x.UnmarshalMsg(o)
	spec.EnsuresN("read", err == nil && int64(x) == a && len(rest) == 0)
}

func Gen_NdauRest(r *rand.Rand) ([]byte, []byte) {
	m, _ := Ndau(zzRand(r)).MarshalMsg(nil)
	after := make([]byte, r.Intn(5))
	r.Read(after)
	return m, after
}

// What follows a message is left, and does not matter.
//
//govc:prop C23
//govc:func (*Ndau).UnmarshalMsg
//govc:gen NdauRest
func Contract_NdauMsgRest(m, after []byte) {
	var x, y Ndau
	rest, err := x.UnmarshalMsg(m)
	spec.Requires(err == nil && len(rest) == 0)
	rest, err = y.UnmarshalMsg(append(spec.Copy(m), after...))
	spec.EnsuresN("read", err == nil && x == y)
	spec.EnsuresN("the rest is left", spec.BytesEq(rest, after))
}

// Written after what is already in the buffer.
//
//govc:prop C23
//govc:func Ndau.MarshalMsg
//govc:gen NdauBytes
func Contract_NdauMsgAppend(a int64, before []byte) {
	o, err := Ndau(a).MarshalMsg(before[:len(before):len(before)])
	o2, err2 := Ndau(a).MarshalMsg(nil)
	spec.EnsuresN("no error", err == nil && err2 == nil)
	spec.EnsuresN("what was there is kept", spec.BytesEq(o, append(spec.Copy(before), o2...)))
}

func Gen_TimestampBytes(r *rand.Rand) (int64, []byte) {
	a := make([]byte, r.Intn(5))
	r.Read(a)
	return zzRand(r), a
}

//govc:prop C24
//govc:func Timestamp.MarshalMsg
//govc:func (*Timestamp).UnmarshalMsg
//govc:func Timestamp.Msgsize
//govc:bv
//govc:nomerge
//govc:gen One
func Contract_TimestampMsg(a int64) {
	o, err := Timestamp(a).MarshalMsg(nil)
	spec.EnsuresN("written", err == nil && len(o) > 0)
	spec.EnsuresN("no longer than estimated", len(o) <= Timestamp(a).Msgsize())
	x := Timestamp(17)
	rest, err := x.UnmarshalMsg(o)
	spec.EnsuresN("read", err == nil && int64(x) == a && len(rest) == 0)
}

func Gen_TimestampRest(r *rand.Rand) ([]byte, []byte) {
	m, _ := Timestamp(zzRand(r)).MarshalMsg(nil)
	after := make([]byte, r.Intn(5))
	r.Read(after)
	return m, after
}

// What follows a message is left, and does not matter.
//
//govc:prop C24
//govc:func (*Timestamp).UnmarshalMsg
//govc:gen TimestampRest
func Contract_TimestampMsgRest(m, after []byte) {
	var x, y Timestamp
	rest, err := x.UnmarshalMsg(m)
	spec.Requires(err == nil && len(rest) == 0)
	rest, err = y.UnmarshalMsg(append(spec.Copy(m), after...))
	spec.EnsuresN("read", err == nil && x == y)
	spec.EnsuresN("the rest is left", spec.BytesEq(rest, after))
}

// Written after what is already in the buffer.
//
//govc:prop C24
//govc:func Timestamp.MarshalMsg
//govc:gen TimestampBytes
func Contract_TimestampMsgAppend(a int64, before []byte) {
	o, err := Timestamp(a).MarshalMsg(before[:len(before):len(before)])
	o2, err2 := Timestamp(a).MarshalMsg(nil)
	spec.EnsuresN("no error", err == nil && err2 == nil)
	spec.EnsuresN("what was there is kept", spec.BytesEq(o, append(spec.Copy(before), o2...)))
}

func Gen_DurationBytes(r *rand.Rand) (int64, []byte) {
	a := make([]byte, r.Intn(5))
	r.Read(a)
	return zzRand(r), a
}

//govc:prop C25
//govc:func Duration.MarshalMsg
//govc:func (*Duration).UnmarshalMsg
//govc:func Duration.Msgsize
//govc:bv
//govc:nomerge
//govc:gen One
func Contract_DurationMsg(a int64) {
	o, err := Duration(a).MarshalMsg(nil)
	spec.EnsuresN("written", err == nil && len(o) > 0)
	spec.EnsuresN("no longer than estimated", len(o) <= Duration(a).Msgsize())
	x := Duration(17)
	rest, err := x.UnmarshalMsg(o)
	spec.EnsuresN("read", err == nil && int64(x) == a && len(rest) == 0)
}

func Gen_DurationRest(r *rand.Rand) ([]byte, []byte) {
	m, _ := Duration(zzRand(r)).MarshalMsg(nil)
	after := make([]byte, r.Intn(5))
	r.Read(after)
	return m, after
}

// What follows a message is left, and does not matter.
//
//govc:prop C25
//govc:func (*Duration).UnmarshalMsg
//govc:gen DurationRest
func Contract_DurationMsgRest(m, after []byte) {
	var x, y Duration
	rest, err := x.UnmarshalMsg(m)
	spec.Requires(err == nil && len(rest) == 0)
	rest, err = y.UnmarshalMsg(append(spec.Copy(m), after...))
	spec.EnsuresN("read", err == nil && x == y)
	spec.EnsuresN("the rest is left", spec.BytesEq(rest, after))
}

// Written after what is already in the buffer.
//
//govc:prop C25
//govc:func Duration.MarshalMsg
//govc:gen DurationBytes
func Contract_DurationMsgAppend(a int64, before []byte) {
	o, err := Duration(a).MarshalMsg(before[:len(before):len(before)])
	o2, err2 := Duration(a).MarshalMsg(nil)
	spec.EnsuresN("no error", err == nil && err2 == nil)
	spec.EnsuresN("what was there is kept", spec.BytesEq(o, append(spec.Copy(before), o2...)))
}

//govc:prop C24
//govc:func Timestamp.Add
//govc:gen Two
func Contract_TimestampAdd(t, d int64) {
	spec.Requires(t >= 0)
	x := Timestamp(t).Add(Duration(d))
	w := zz(t).Add(zz(d))
	if w.Lt(zz(0)) {
		spec.EnsuresN("not before the epoch", x == 0)
	} else if w.IsI64() {
		spec.EnsuresN("exact", zz(int64(x)).Eq(w))
	} else {
		spec.EnsuresN("not after the last moment", x == math.MaxInt64)
	}
}

//govc:prop C24
//govc:func Timestamp.Sub
//govc:gen Two
func Contract_TimestampSub(t, d int64) {
	spec.Requires(t >= 0)
	x := Timestamp(t).Sub(Duration(d))
	w := zz(t).Sub(zz(d))
	if w.Lt(zz(0)) {
		spec.EnsuresN("not before the epoch", x == 0)
	} else if w.IsI64() {
		spec.EnsuresN("exact", zz(int64(x)).Eq(w))
	} else {
		spec.EnsuresN("not after the last moment", x == math.MaxInt64)
	}
}

//govc:prop C24
//govc:func Timestamp.Since
//govc:gen Two
func Contract_TimestampSince(t, o int64) {
	spec.Requires(t >= 0 && o >= 0)
	d := Timestamp(t).Since(Timestamp(o))
	spec.EnsuresN("exact", zz(int64(d)).Eq(zz(t).Sub(zz(o))))
	x := Timestamp(o).Add(d)
	spec.EnsuresN("adding it leads back", int64(x) == t)
}
