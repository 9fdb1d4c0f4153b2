package vis

import (
	"image/color"
	"math"
)

//gosym:bound C27 the predefined gray gradients, the echotop gradient of the converter, and arbitrary ranges with and without logarithmic compression: every value within, below and above (up to a factor of 1000), NaN and infinities
//gosym:assume C27 float64 arithmetic is real arithmetic except in the jobs on arbitrary 64-bit values; monotonicity is judged for values that differ by at least 1e-9 of the range

var zzvBlack = color.RGBA{0, 0, 0, 0xFF}
var zzvWhite = color.RGBA{0xFF, 0xFF, 0xFF, 0xFF}

// zzvGray is the k-th gray gradient and its range.
func zzvGray(k int) (fn ColorFunc, min, max float64) {
	switch k {
	case 0:
		return GraymapLinear, 0, 409.5
	case 1:
		return GraymapLinearWide, 0, 4095
	case 2:
		return Graymap(0, 15, Id), 0, 15
	case 3:
		return Graymap(-32.5, 95, Id), -32.5, 95
	case 4:
		return Graymap(0.1, 100, Log), 0.1, 100
	}
	return Graymap(5, 5000, Log), 5, 5000
}

func zzvIsGray(c color.RGBA) {
	zzv_Assert(c.A == 0xFF, "colour not opaque")
	zzv_Assert(c.R == c.G && c.G == c.B, "colour not gray")
}

// zzvC27 looks at arbitrary values.
//
//gosym:job C27 map=0..3
func zzvC27() {
	fn, min, max := zzvGray(zzv_Param("map"))
	v := zzv_AnyF64("v")
	c := fn(v)
	zzvIsGray(c)
	if !(v >= min) {
		zzv_Assert(c == zzvBlack, "value below the minimum or NaN is not black")
	}
	if v >= max {
		zzv_Assert(c == zzvWhite, "value above the maximum is not white")
	}
}

// zzvC27Mono compares two values in real arithmetic.
//
//gosym:job C27 real map=0..5
func zzvC27Mono() {
	k := zzv_Param("map")
	fn, min, max := zzvGray(k)
	lo, hi := min-(max-min)*2, max+(max-min)*2
	if k >= 4 {
		lo, hi = min/1000, max*1000
	}
	a, b := zzv_F64("a", lo, hi), zzv_F64("b", lo, hi)
	zzv_Assume(a+(max-min)*1e-9 <= b)
	x, y := fn(a), fn(b)
	zzvIsGray(x)
	zzvIsGray(y)
	zzv_Assert(x.R <= y.R, "larger value gives a darker colour")
	zzv_Observe("gray", int(x.R))
}

// zzvC27Edge looks at the values below, at and above the range.
//
//gosym:job C27 real map=0..5
func zzvC27Edge() {
	k := zzv_Param("map")
	fn, min, max := zzvGray(k)
	lo, hi := min-(max-min)*2, max+(max-min)*2
	if k >= 4 {
		lo, hi = min/1000, max*1000
	}
	zzv_Assert(fn(zzv_F64("below", lo, min-1e-9)) == zzvBlack, "value below the minimum is not black")
	zzv_Assert(fn(zzv_F64("above", max+1e-9, hi)) == zzvWhite, "value above the maximum is not white")
	zzv_Assert(fn(min) == zzvBlack, "minimum is not black")
	zzv_Assert(fn(max) == zzvWhite, "maximum is not white")
}

// zzvC27Special gives logarithmic gradients numbers without a logarithm.
//
//gosym:job C27 map=4,5
func zzvC27Special() {
	fn, _, _ := zzvGray(zzv_Param("map"))
	v := zzv_AnyF64("v")
	zzv_Assume(!(v > 0) || math.IsInf(v, 1))
	c := fn(v)
	zzvIsGray(c)
	if v > 0 {
		zzv_Assert(c == zzvWhite, "infinity is not white")
	} else {
		zzv_Assert(c == zzvBlack, "value below the minimum or NaN is not black")
	}
}

// zzvRange is an arbitrary range and the value at fraction q of it.
func zzvRange(log bool, q float64) (min, max, v float64, f func(float64) float64) {
	if log {
		min = zzv_F64("min", 0.001, 1000)
		w := zzv_F64("width", 0.1, 10)
		return min, min * math.Exp(w), min * math.Exp(q*w), Log
	}
	min = zzv_F64("min", -1000, 1000)
	w := zzv_F64("width", 0.01, 10000)
	return min, min + w, min + q*w, Id
}

// zzvC27Range looks at gradients over an arbitrary range.
//
//gosym:job C27 real log=0,1
func zzvC27Range() {
	q := zzv_F64("q", -1, 2)
	min, max, v, f := zzvRange(zzv_Param("log") == 1, q)
	c := Graymap(min, max, f)(v)
	zzvIsGray(c)
	if q < -1e-6 {
		zzv_Assert(c == zzvBlack, "value below the minimum is not black")
	}
	if q > 1+1e-6 {
		zzv_Assert(c == zzvWhite, "value above the maximum is not white")
	}
	if q > 1e-6 && q < 1-1e-6 {
		zzv_Assert(zzvNear(c.R, q), "shade does not correspond to the position in the range")
	}
}

// zzvNear reports whether l is the fraction q of 255, up to rounding.
func zzvNear(l uint8, q float64) bool {
	d := float64(l) - 255*q
	return d > -1.001 && d < 1.001
}
