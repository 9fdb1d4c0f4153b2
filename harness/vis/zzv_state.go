package vis

import (
	"image"
	"image/color"
	"math"

	"gitlab.cs.fau.de/since/radolan"
)

//gosym:bound C31 the sample gradients and new ones at pairs of arbitrary values out of 256 each and at pairs in ten fixed relations; images of composites of up to 3x2 pixels with arbitrary data, with the rendering of other composites in other sizes in between

// zzvRes is the outcome of an operation.
type zzvRes struct {
	Pix  []byte
	Cols []color.RGBA
	W, H int
}

// zzvNativeFresh computes g in a new process.
var zzvNativeFresh func(g func() zzvRes) zzvRes

// zzvFresh computes g as if it were the first use of the package.
func zzvFresh(g func() zzvRes) (r zzvRes) {
	if !zzv_Symbolic() {
		return zzvNativeFresh(g)
	}
	zzv_Fresh(func() { r = g() })
	return
}

func zzvSameRes(a, b zzvRes) {
	zzv_Assert(a.W == b.W && a.H == b.H && len(a.Pix) == len(b.Pix), "the image size depends on earlier calls")
	for i := range a.Pix {
		zzv_Assert(a.Pix[i] == b.Pix[i], "a pixel depends on other calls")
	}
	for i := range a.Cols {
		zzv_Assert(a.Cols[i] == b.Cols[i], "a colour depends on other calls")
	}
}

func zzvKeep(img *image.RGBA) zzvRes {
	return zzvRes{Pix: append([]byte(nil), img.Pix...), W: img.Rect.Dx(), H: img.Rect.Dy()}
}

func zzvGradient(k int) ColorFunc {
	switch k {
	case 0:
		return HeatmapReflectivityShort
	case 1:
		return HeatmapReflectivity
	case 2:
		return HeatmapReflectivityWide
	case 3:
		return HeatmapAccumulatedHour
	case 4:
		return HeatmapAccumulatedDay
	case 5:
		return HeatmapRadialVelocity
	case 6:
		return GraymapLinear
	case 7:
		return GraymapLinearWide
	case 8:
		return Heatmap(1, 100, Log)
	case 9:
		return Radialmap(-12, 30, Id)
	}
	return Graymap(-8, 90, Id)
}

// zzvValue is an arbitrary value out of 256, NaN among them.
func zzvValue(name string) float64 {
	b := zzv_Byte(name)
	if b == 255 {
		return float64(radolan.NaN)
	}
	return (float64(b) - 128) * 1.25
}

// zzvC31Gradient evaluates gradients one after the other.
//
//gosym:job C31 t=20 a=0..10 b=0..10
func zzvC31Gradient() {
	ka, kb := zzv_Param("a"), zzv_Param("b")
	v, w := zzvValue("v"), zzvValue("w")
	calc := func() (r zzvRes) {
		fn := zzvGradient(kb)
		r.Cols = append(r.Cols, fn(v))
		return
	}
	want := zzvFresh(calc)
	fa := zzvGradient(ka)
	ca := fa(w)
	zzvSameRes(calc(), want)
	fb := zzvGradient(kb)
	fb(w)
	zzv_Assert(fb(v) == want.Cols[0], "a colour depends on other calls")
	zzv_Assert(fb(v) == want.Cols[0], "a colour depends on other calls")
	zzv_Assert(fa(w) == ca, "a colour depends on other calls")
	zzv_Reach("gradients")
}

// zzvC31Near evaluates gradients at values in a fixed relation.
//
//gosym:job C31 t=20 a=0..10 b=0..10
func zzvC31Near() {
	ka, kb := zzv_Param("a"), zzv_Param("b")
	v := zzvValue("v")
	calc := func() (r zzvRes) {
		fn := zzvGradient(kb)
		r.Cols = append(r.Cols, fn(v))
		return
	}
	want := zzvFresh(calc)
	for _, w := range []float64{v, v + 0.125, v - 0.3, -v, v * 2, v + 300, v - 300, float64(radolan.NaN), 0, math.Inf(1), math.Inf(-1)} {
		fa := zzvGradient(ka)
		fa(w)
		zzvSameRes(calc(), want)
		fb := zzvGradient(kb)
		fb(w)
		zzv_Assert(fb(v) == want.Cols[0], "a colour depends on other calls")
		zzv_Assert(fb(v) == want.Cols[0], "a colour depends on other calls")
	}
	zzv_Reach("near")
}

func zzvSmall(name string, dx, dy int) *radolan.Composite {
	data := make([]byte, dx*dy)
	for i := range data {
		data[i] = zzv_Byte(name)
	}
	return zzvComposite("RX", "VS 3GP"+zzvPad(dy, 4)+"x"+zzvPad(dx, 4), data)
}

// zzvC31Image renders composites one after the other.
//
//gosym:job C31 k=0,2,5,6 dx=1..3 dy=1,2
func zzvC31Image() {
	k, dx, dy := zzv_Param("k"), zzv_Param("dx"), zzv_Param("dy")
	b := zzvSmall("b", dx, dy)
	want := zzvFresh(func() zzvRes { return zzvKeep(Image(zzvGradient(k), b, 0)) })
	for _, d := range [][2]int{{dx, dy}, {3, 2}, {1, 4}, {2, 1}} {
		a := zzvSmall("a", d[0], d[1])
		ia := Image(zzvGradient(k), a, 0)
		ra := zzvKeep(ia)
		ib := Image(zzvGradient(k), b, 0)
		zzvSameRes(zzvKeep(ib), want)
		zzvSameRes(zzvKeep(ia), ra)
		for i := range ia.Pix {
			ia.Pix[i] = 0x5A
		}
		zzvSameRes(zzvKeep(ib), want)
		ib.Rect = image.Rectangle{}
		for i := range ib.Pix {
			ib.Pix[i] = 0xA5
		}
		none := Image(zzvGradient(k), b, 1)
		zzv_Assert(none.Rect == image.Rect(0, 0, dx, dy), "blank image of the wrong size")
		for _, p := range none.Pix {
			zzv_Assert(p == 0, "image of a missing layer is not blank")
		}
		c := Image(zzvGradient(k), b, 0)
		zzvSameRes(zzvKeep(c), want)
	}
	zzv_Reach("images")
}

// zzvC31Composite renders, which leaves the composite as it is.
//
//gosym:job C31 k=0,3,6
func zzvC31Composite() {
	c := &radolan.Composite{Dx: 2, Dy: 2, Dz: 2, Px: 2, Py: 2}
	var v [8]float32
	for z := 0; z < 2; z++ {
		var rows [][]float32
		for y := 0; y < 2; y++ {
			a, b := float32(zzvValue("value")), float32(zzvValue("value"))
			v[4*z+2*y], v[4*z+2*y+1] = a, b
			rows = append(rows, []float32{a, b})
		}
		c.DataZ = append(c.DataZ, rows)
	}
	c.Data = c.DataZ[0]
	for l := -1; l < 3; l++ {
		Image(zzvGradient(zzv_Param("k")), c, l)
	}
	zzv_Assert(c.Dx == 2 && c.Dy == 2 && c.Dz == 2 && c.Px == 2 && c.Py == 2 && len(c.DataZ) == 2 && len(c.Data) == 2, "rendering changed the composite")
	for z := range c.DataZ {
		zzv_Assert(len(c.DataZ[z]) == 2, "rendering changed the composite")
		for y := range c.DataZ[z] {
			zzv_Assert(len(c.DataZ[z][y]) == 2, "rendering changed the composite")
			for x := range c.DataZ[z][y] {
				p, q := c.DataZ[z][y][x], v[4*z+2*y+x]
				zzv_Assert(p == q || radolan.IsNaN(p) && radolan.IsNaN(q), "rendering changed the composite")
			}
		}
	}
}
