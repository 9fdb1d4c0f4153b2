package vis

import (
	"image/color"
	"math"
)

//gosym:bound C28 the predefined heat gradients, those of the converter for every interval, and arbitrary ranges with and without logarithmic compression: every value within, below and above (up to a factor of 1000), NaN and infinities
//gosym:bound C29 the predefined radial-velocity gradient, five other ranges (symmetric or not, with and without logarithmic compression) and arbitrary bases: every velocity up to ten times the range in both directions, NaN and infinities
//gosym:assume C28 float64 arithmetic is real arithmetic except in the jobs on values without a logarithm; colour channels are compared up to one step
//gosym:assume C29 float64 arithmetic is real arithmetic except in the jobs on NaN and infinities; the shade is compared up to one step

// zzvHeat is the k-th heat gradient and its range.
func zzvHeat(k int) (fn ColorFunc, min, max float64) {
	switch k {
	case 0:
		return HeatmapReflectivity, 1, 75
	case 1:
		return HeatmapReflectivityShort, 5, 75
	case 2:
		return HeatmapReflectivityWide, -32.5, 75
	case 3:
		return HeatmapAccumulatedHour, 0.1, 100
	case 4:
		return HeatmapAccumulatedDay, 0.1, 200
	case 5:
		return Heatmap(0.1, 400, Log), 0.1, 400
	}
	return Heatmap(-100, -10, Id), -100, -10
}

func zzvIsLog(k int) bool { return k >= 3 && k <= 5 }

// zzvHSL checks that a colour shows fraction q of the spectrum: the hue falls
// from 240 degrees (blue) to 0 (red) and on to -90 (violet), fully saturated,
// while the lightness grows from a quarter to three quarters. Each channel
// follows from its distance in hue.
func zzvHSL(c color.RGBA, q float64) {
	zzv_Assert(c.A == 0xFF, "colour not opaque")
	hue := 240 - 330*q
	l := 0.25 + 0.5*q
	amp := l // half the chroma
	if l > 0.5 {
		amp = 1 - l
	}
	zzvChannel(c.R, l, amp, zzvTrapez(hue))
	zzvChannel(c.G, l, amp, zzvTrapez(hue-120))
	zzvChannel(c.B, l, amp, zzvTrapez(hue-240))
}

// zzvTrapez is 1 within 60 degrees of 0, -1 beyond 120 degrees, and linear in
// between, for angles in -360..360.
func zzvTrapez(a float64) float64 {
	if a < 0 {
		a = -a
	}
	if a > 180 {
		a = 360 - a
	}
	if a <= 60 {
		return 1
	}
	if a >= 120 {
		return -1
	}
	return 3 - a/30
}

func zzvChannel(v uint8, l, amp, t float64) {
	zzv_Assert(zzvNear(v, l+amp*t), "colour is not the one of the spectrum")
}

var zzvBends = []float64{0, 2.0 / 11, 4.0 / 11, 0.5, 6.0 / 11, 8.0 / 11, 10.0 / 11, 1}

// zzvC28 looks at values within the range, between two bends of the spectrum.
//
//gosym:job C28 real nomerge map=0..6 seg=0..6
func zzvC28() {
	k, seg := zzv_Param("map"), zzv_Param("seg")
	fn, min, max := zzvHeat(k)
	if seg == 0 {
		zzvHSL(fn(min), 0)
		zzvHSL(fn(max), 1)
	}
	lo, hi := zzvBends[seg], zzvBends[seg+1]
	if zzvIsLog(k) {
		lo, hi = min*math.Pow(max/min, lo), min*math.Pow(max/min, hi)
	} else {
		lo, hi = min+(max-min)*lo, min+(max-min)*hi
	}
	v := zzv_F64("v", lo+(hi-lo)*1e-9, hi-(hi-lo)*1e-9)
	c := fn(v)
	q := (v - min) / (max - min)
	if zzvIsLog(k) {
		q = (math.Log(v) - math.Log(min)) / (math.Log(max) - math.Log(min))
	}
	zzv_Assert(c.R|c.G|c.B != 0, "value within the range is black")
	zzvHSL(c, q)
}

// zzvC28Edge looks at values below and above the range.
//
//gosym:job C28 real nomerge map=0..6
func zzvC28Edge() {
	k := zzv_Param("map")
	fn, min, max := zzvHeat(k)
	lo, hi := min-(max-min)*10, max+(max-min)*10
	if zzvIsLog(k) {
		lo, hi = min/1000, max*1000
	}
	zzv_Assert(fn(zzv_F64("below", lo, min-1e-9)) == zzvBlack, "value below the minimum is not black")
	zzv_Assert(fn(zzv_F64("above", max+1e-9, hi)) == fn(max), "value above the maximum has another colour than the maximum")
}

// zzvC28Any looks at numbers without a place in the range.
//
//gosym:job C28 nomerge map=0..6
func zzvC28Any() {
	k := zzv_Param("map")
	fn, min, max := zzvHeat(k)
	v := zzv_AnyF64("v")
	if zzvIsLog(k) {
		zzv_Assume(!(v > 0) || math.IsInf(v, 1))
	} else {
		zzv_Assume(!(v >= min) || v > max+1e-9)
	}
	c := fn(v)
	if v > max {
		zzv_Assert(c == fn(max), "value above the maximum has another colour than the maximum")
	} else {
		zzv_Assert(c == zzvBlack, "value below the minimum or NaN is not black")
	}
}

// zzvC28Range looks at gradients over an arbitrary range.
//
//gosym:job C28 real nomerge log=0,1
func zzvC28Range() {
	q := zzv_F64("q", 0.000001, 1.5)
	min, max, v, f := zzvRange(zzv_Param("log") == 1, q)
	c := Heatmap(min, max, f)(v)
	if q > 1 {
		q = 1
	}
	zzvHSL(c, q)
}

// zzvC28Below is zzvC28Range below the minimum.
//
//gosym:job C28 real nomerge log=0,1
func zzvC28Below() {
	min, max, v, f := zzvRange(zzv_Param("log") == 1, zzv_F64("q", -2, -0.000001))
	zzv_Assert(Heatmap(min, max, f)(v) == zzvBlack, "value below the minimum is not black")
}

// zzvRadial is the k-th radial gradient and the end of its range.
func zzvRadial(k int) (fn ColorFunc, base float64, log bool) {
	switch k {
	case 0:
		return HeatmapRadialVelocity, 31.5, true
	case 1:
		return Radialmap(-10, 31.5, Id), 31.5, false
	case 2:
		return Radialmap(-64, 5, Log), 64, true
	case 3:
		return Radialmap(-50, 50, Id), 50, false
	case 4:
		return Radialmap(0, 20, Log), 20, true
	}
	return Radialmap(-8, 0, Id), 8, false
}

// zzvRed returns the strong and the weak channel of a colour for direction
// neg.
func zzvRed(c color.RGBA, neg bool) (lev, non uint8) {
	zzv_Assert(c.A == 0xFF, "colour not opaque")
	if neg {
		zzv_Assert(c.G == c.B, "negative velocity is not cyan")
		lev, non = c.G, c.R
	} else {
		zzv_Assert(c.G == c.B, "positive velocity is not red")
		lev, non = c.R, c.G
	}
	zzv_Assert(lev >= non, "colour of the opposite direction")
	return
}

// zzvC29 compares a speed in both directions.
//
//gosym:job C29 real nomerge map=0..5 part=0..2
func zzvC29() {
	fn, base, log := zzvRadial(zzv_Param("map"))
	lo, hi := 0.001, 1.0
	switch zzv_Param("part") {
	case 1:
		lo, hi = 1.000000001, base*0.999999
	case 2:
		lo, hi = base*1.000001, base*10
	}
	v := zzv_F64("v", lo, hi)
	lev, non := zzvRed(fn(v), false)
	l, n := zzvRed(fn(-v), true)
	zzv_Assert(l == lev && n == non, "the two directions differ in intensity")
	l, n = zzvRed(fn(base), false)
	zzv_Assert(l == 0xFF && n == 0, "the end of the range does not have the brightest shade")
	switch {
	case v <= 1:
		zzv_Assert(lev == 0xFF && non >= 0x80, "low speed is not near-white")
		l, n := zzvRed(fn(0), false)
		zzv_Assert(l == lev && n == non, "low speeds do not share a shade")
	case v >= base:
		zzv_Assert(lev == 0xFF && non == 0, "high speed does not have the brightest shade")
	default:
		q := v / base
		if log {
			q = math.Log(v) / math.Log(base)
		}
		zzv_Assert(non == 0 && zzvNear(lev, q), "shade does not correspond to the speed")
	}
}

// zzvC29Base looks at an arbitrary range.
//
//gosym:job C29 real nomerge log=0,1 side=0,1
func zzvC29Base() {
	base := zzv_F64("base", 2, 300)
	q := zzv_F64("q", 0.01, 3)
	v, f := base*q, Id
	if zzv_Param("log") == 1 {
		v, f = math.Exp(q*math.Log(base)), Log
	}
	if q < 1 {
		zzv_Assume(v > 1.000001)
	}
	min, max := -1.5, base
	if zzv_Param("side") == 1 {
		min, max = -base, 1.5
	}
	lev, non := zzvRed(Radialmap(min, max, f)(v), false)
	l, n := zzvRed(Radialmap(min, max, f)(-v), true)
	zzv_Assert(l == lev && n == non, "the two directions differ in intensity")
	if q > 1.000001 {
		zzv_Assert(lev == 0xFF && non == 0, "high speed does not have the brightest shade")
	} else if q < 0.999999 {
		zzv_Assert(non == 0 && zzvNear(lev, q), "shade does not correspond to the speed")
	}
}

// zzvC29Special gives NaN, infinities and low speeds as 64-bit numbers.
//
//gosym:job C29 nomerge map=0..5
func zzvC29Special() {
	fn, _, _ := zzvRadial(zzv_Param("map"))
	v := zzv_AnyF64("v")
	zzv_Assume(v != v || math.IsInf(v, 0) || v >= -1 && v <= 1)
	c := fn(v)
	if v != v {
		zzv_Assert(c == zzvBlack, "NaN is not black")
		return
	}
	lev, non := zzvRed(c, v < 0)
	zzv_Assert(lev == 0xFF, "shade too dark")
	if v >= -1 && v <= 1 {
		zzv_Assert(non >= 0x80, "low speed is not near-white")
		l, n := zzvRed(fn(0.5), false)
		zzv_Assert(l == lev && n == non, "low speeds do not share a shade")
	} else {
		zzv_Assert(non == 0, "high speed does not have the brightest shade")
	}
}
