package radolan

import "math"

//gosym:bound C24 relations a in [0.01, 100000], b in [0.2, 5] (arbitrary) and the four predefined ones; reflectivities in [-100, 150] dBZ; rates in [1e-6, 1e4] mm/h; strict growth between reflectivities at least 0.01 dBZ apart and rates at least 0.1 % apart; each also after using another relation, and at every tenth of a dBZ and twentieth of a mm/h from -33 to 95 dBZ; NaN handling for every 32-bit reflectivity and 64-bit rate
//gosym:assume C24 float64 arithmetic is real arithmetic except in the NaN jobs; results are compared with a tolerance of 1e-4 dBZ

// zzvRel is the relationship with its documented coefficients.
func zzvRel(k int) (rel ZR, a, b float64) {
	switch k {
	case 0:
		return Aniol80, 256, 1.42
	case 1:
		return Doelling98, 316, 1.5
	case 2:
		return JossWaldvogel70, 300, 1.5
	case 3:
		return MarshallPalmer55, 200, 1.6
	}
	a, b = zzv_F64("a", 0.01, 100000), zzv_F64("b", 0.2, 5)
	return NewZR(a, b), a, b
}

// zzvC24 checks the formula and both inverses.
//
//gosym:job C24 real rel=0..4
func zzvC24() {
	rel, a, b := zzvRel(zzv_Param("rel"))
	dbz := float32(zzv_F64("dbz", -100, 150))
	r := PrecipitationRate(rel, dbz)
	zzv_Assert(r > 0, "rate not positive")
	z := 10 * (math.Log10(a) + b*math.Log10(r))
	zzv_Assert(zzvAbs(z-float64(dbz)) < 1e-4, "10*log10(a*R^b) is not the reflectivity")
	back := Reflectivity(rel, r)
	zzv_Assert(zzvAbs(float64(back)-float64(dbz)) < 1e-4, "round trip changes the reflectivity")
	zzv_Observe("rate", math.Log10(r))
}

// zzvC24Rate starts from a rain rate.
//
//gosym:job C24 real rel=0..4
func zzvC24Rate() {
	rel, a, b := zzvRel(zzv_Param("rel"))
	r := zzv_F64("rate", 1e-6, 1e4)
	dbz := Reflectivity(rel, r)
	z := 10 * (math.Log10(a) + b*math.Log10(r))
	zzv_Assert(zzvAbs(z-float64(dbz)) < 1e-4, "the reflectivity is not 10*log10(a*R^b)")
	r2 := PrecipitationRate(rel, dbz)
	zzv_Assert(r2 > 0 && zzvAbs(math.Log10(r2)-math.Log10(r)) < 1e-4, "round trip changes the rate")
}

// zzvC24Mono checks that both directions increase strictly.
//
//gosym:job C24 real rel=0..4
func zzvC24Mono() {
	rel, _, _ := zzvRel(zzv_Param("rel"))
	lo := zzv_F64("lo", -100, 149)
	hi := zzv_F64("hi", -100, 150)
	zzv_Assume(lo+0.01 <= hi)
	zzv_Assert(PrecipitationRate(rel, float32(lo)) < PrecipitationRate(rel, float32(hi)), "rate does not increase with the reflectivity")
	r := zzv_F64("rate", 1e-6, 1e4)
	f := zzv_F64("factor", 1.001, 1e6)
	zzv_Assert(Reflectivity(rel, r) < Reflectivity(rel, r*f), "reflectivity does not increase with the rate")
}

// zzvC24NaN checks that NaN stays NaN and nothing else becomes NaN.
//
//gosym:job C24 rel=0..3
func zzvC24NaN() {
	rel, _, _ := zzvRel(zzv_Param("rel"))
	dbz := zzv_AnyF32("dbz")
	r := PrecipitationRate(rel, dbz)
	zzv_Assert(zzvNaN64(r) == IsNaN(dbz), "NaN reflectivity and NaN rate do not correspond")
	rate := zzv_AnyF64("rate")
	zzv_Assume(!(rate < 0))
	back := Reflectivity(rel, rate)
	zzv_Assert(IsNaN(back) == zzvNaN64(rate), "NaN rate and NaN reflectivity do not correspond")
}

// zzvC24Pair uses another relation first.
//
//gosym:job C24 real rel=0..4 other=0..3
func zzvC24Pair() {
	other, _, _ := zzvRel(zzv_Param("other"))
	d := float32(zzv_F64("first", -100, 150))
	Reflectivity(other, PrecipitationRate(other, d))
	rel, a, b := zzvRel(zzv_Param("rel"))
	dbz := float32(zzv_F64("dbz", -100, 150))
	r := PrecipitationRate(rel, dbz)
	z := 10 * (math.Log10(a) + b*math.Log10(r))
	zzv_Assert(zzvAbs(z-float64(dbz)) < 1e-4, "10*log10(a*R^b) is not the reflectivity")
	zzv_Assert(zzvAbs(float64(Reflectivity(rel, r))-float64(dbz)) < 1e-4, "round trip changes the reflectivity")
}

// zzvC24Step takes reflectivities in steps of a tenth, and rates in steps of a
// twentieth, with another relation before.
//
//gosym:job C24 rel=0..3 other=0..3 part=0..7
func zzvC24Step() {
	other, _, _ := zzvRel(zzv_Param("other"))
	rel, a, b := zzvRel(zzv_Param("rel"))
	i := zzv_Param("part")*160 + zzv_Choose("step", 160) - 330
	dbz := float32(i) / 10
	Reflectivity(other, PrecipitationRate(other, dbz))
	r := PrecipitationRate(rel, dbz)
	z := 10 * (math.Log10(a) + b*math.Log10(r))
	zzv_Assert(zzvAbs(z-float64(dbz)) < 1e-4, "10*log10(a*R^b) is not the reflectivity")
	zzv_Assert(zzvAbs(float64(Reflectivity(rel, r))-float64(dbz)) < 1e-4, "round trip changes the reflectivity")
	rate := float64(i+331) / 20
	Reflectivity(other, rate)
	z = 10 * (math.Log10(a) + b*math.Log10(rate))
	zzv_Assert(zzvAbs(z-float64(Reflectivity(rel, rate))) < 1e-4, "the reflectivity is not 10*log10(a*R^b)")
}
