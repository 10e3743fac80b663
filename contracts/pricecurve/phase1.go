package pricecurve

import (
	"math/rand"

	"verif.local/spec"
)

// Blocks, their prices 2^(14b/9999) and those on the old curve, 2^(14b/10000), in
// nanocents, calculated with 60 digits.
//
//govc:helper
func zzPhase1() [][]string {
	return [][]string{
		{"0", "100000000000", "100000000000"},
		{"1", "100097097419", "100097087705"},
		{"2", "100194289118", "100194269670"},
		{"3", "100291575187", "100291545987"},
		{"4", "100388955718", "100388916747"},
		{"5", "100486430804", "100486382042"},
		{"6", "100584000535", "100583941964"},
		{"7", "100681665003", "100681596605"},
		{"8", "100779424302", "100779346057"},
		{"9", "100877278522", "100877190411"},
		{"10", "100975227756", "100975129760"},
		{"15", "101466402368", "101466254658"},
		{"16", "101564923626", "101564765916"},
		{"17", "101663540546", "101663372816"},
		{"31", "103054274072", "103053964027"},
		{"32", "103154337112", "103154016756"},
		{"33", "103254497312", "103254166623"},
		{"63", "106304953285", "106304303320"},
		{"64", "106408172651", "106407511728"},
		{"65", "106511492240", "106510820339"},
		{"100", "110191580995", "110190511588"},
		{"127", "113117158227", "113115764023"},
		{"128", "113226992069", "113225585522"},
		{"129", "113336932556", "113335513645"},
		{"255", "128079155775", "128075986133"},
		{"256", "128203517330", "128200332168"},
		{"257", "128327999637", "128324798929"},
		{"511", "164201982670", "164193839650"},
		{"512", "164361418557", "164353251681"},
		{"513", "164521009253", "164512818481"},
		{"1000", "263927195128", "263901582155"},
		{"1023", "269884708015", "269857914525"},
		{"1024", "270146759102", "270119913381"},
		{"1025", "270409064633", "270382166606"},
		{"2047", "729084792015", "728939964969"},
		{"2048", "729792714533", "729647676051"},
		{"2049", "730501324425", "730356074233"},
		{"3000", "1838452557255", "1837917367995"},
		{"4095", "5320807694887", "5318693514199"},
		{"4096", "5325974061848", "5323857311663"},
		{"4097", "5331145445218", "5329026122540"},
		{"5000", "12806212727106", "12800000000000"},
		{"7143", "102485217883543", "102414196638271"},
		{"8191", "283384837710462", "283159653540667"},
		{"8192", "283659997074742", "283434566749514"},
		{"8193", "283935423611663", "283709746865287"},
		{"9998", "1636810699051385", "1635223257173871"},
		{"9999", "1638400000000000", "1636810857904379"},
		{"10000", "1639990844118822", "1638400000000000"},
	}
}

//govc:helper
func zzNear(p Nanocent, want string) bool {
	w := spec.Dec(want)
	t := w.Quo(zz(500000000))
	return zz(int64(p)).Le(w.Add(t)) && w.Le(zz(int64(p)).Add(t))
}

// In phase 1 the price of block b is 2^(14b/9999) dollars, to within one part in
// 500 million.
//
//govc:prop C32
//govc:func phase1
//govc:uses Model_MulDiv
//govc:unroll 20000
//govc:len part 0..4
//govc:len old 0..1
//govc:bounded the first blocks and those next to powers of 2, where the table changes
//govc:gen Part
func Contract_Phase1(part, old int) {
	spec.Requires(part >= 0 && part < 5 && old >= 0 && old < 2)
	for i, r := range zzPhase1() {
		if i%5 == part {
			b := spec.ToBig(spec.Dec(r[0])).Uint64()
			x := phase1(b, old == 0)
			spec.EnsuresN("price of block "+r[0], zzNear(x, r[1+old]))
		}
	}
}

func Gen_Part(r *rand.Rand) (int, int) { return r.Intn(5), r.Intn(2) }

// It rises from each block to the next, also to phase 2 and at the end.
//
//govc:prop C32
//govc:func phase1
//govc:uses Model_MulDiv
//govc:unroll 20000
//govc:len k 0..13
//govc:len old 0..1
//govc:bounded next to powers of 2, where the table changes, and at the end
//govc:gen K
func Contract_Phase1Rises(k, old int) {
	spec.Requires(k >= 0 && k < 14 && old >= 0 && old < 2)
	b := uint64(1) << uint(k)
	if k == 13 {
		b = 10000
	}
	x, y := phase1(b-1, old == 0), phase1(b, old == 0)
	spec.EnsuresN("rises", x < y)
	if k == 13 {
		z, err := phase23(10001)
		spec.EnsuresN("rises to phase 2", err == nil && y < z)
	} else {
		spec.EnsuresN("rises again", y < phase1(b+1, old == 0))
	}
}

func Gen_K(r *rand.Rand) (int, int) { return r.Intn(14), r.Intn(2) }

// In phases 2 and 3 the price rises from each block to the next.
//
//govc:prop C32
//govc:func phase23
//govc:uses Model_MulDiv
//govc:gen Block23
func Contract_Rises23(b int64) {
	spec.Requires(b > 10000 && b < 29999)
	x, err := phase23(b)
	y, err2 := phase23(b + 1)
	spec.Assert((b-10001)*(29998-b) >= 0)
	spec.EnsuresN("rises", err == nil && err2 == nil && x <= y)
}
