package vis

import (
	"bytes"
	"image"
	"image/color"
	"io"
	"math"
	"time"

	"gitlab.cs.fau.de/since/radolan"
)

//gosym:bound C26 composites of 1..4 x 1..4 pixels with arbitrary 16-bit data, a 37x23 composite, composites of up to 5000 columns or 3000 rows, 1100x1200 and 1400x1500 with three arbitrary bytes, all local product shapes (200x200 with one or twelve layers) with an arbitrary run in one line of one layer, hand-made composites of 1..3 layers with arbitrary 32-bit values, product, unit, format, interval and resolution, dummies; every layer number

var _ io.Reader

// zzvPad formats n >= 0 right-aligned in w characters.
func zzvPad(n, w int) string {
	b := make([]byte, w)
	for i := w - 1; i >= 0; i-- {
		if n == 0 && i < w-1 {
			b[i] = ' '
			continue
		}
		b[i] = byte('0' + n%10)
		n /= 10
	}
	return string(b)
}

// zzvStream builds a composite stream.
func zzvStream(prod, fields string, data []byte) []byte {
	head := prod + "260950100000616BY"
	n := len(head) + 7 + len(fields) + 1
	head += zzvPad(n+len(data), 7) + fields + "\x03"
	return append([]byte(head), data...)
}

func zzvComposite(prod, fields string, data []byte) *radolan.Composite {
	c, err := radolan.NewComposite(bytes.NewReader(zzvStream(prod, fields, data)))
	zzv_Assert(c != nil && (err == nil || err == radolan.ErrUnknownUnit), "valid stream rejected")
	return c
}

// zzvColour is a colour function that tells values apart.
func zzvColour(v float64) color.RGBA {
	switch {
	case v != v:
		return color.RGBA{1, 2, 3, 0}
	case v < -1e6 || v > 1e6:
		return color.RGBA{5, 6, 7, 8}
	}
	n := int(math.Floor(v * 8))
	return color.RGBA{byte(n), byte(n >> 8), byte(n >> 16), byte(n >> 2)}
}

func zzvSize(img *image.RGBA, dx, dy int) {
	zzv_Assert(img.Rect == image.Rect(0, 0, dx, dy), "image does not have the size of the composite")
	zzv_Assert(len(img.Pix) >= dx*dy*4 || dx*dy == 0, "image without pixels")
}

func zzvBlank(img *image.RGBA) {
	for _, b := range img.Pix {
		zzv_Assert(b == 0, "image is not blank")
	}
}

// zzvShows checks an image against the layer.
func zzvShows(img *image.RGBA, fn ColorFunc, c *radolan.Composite, layer int) {
	zzvSize(img, c.Dx, c.Dy)
	for y := 0; y < c.Dy; y++ {
		for x := 0; x < c.Dx; x++ {
			want := fn(float64(c.DataZ[layer][y][x]))
			zzv_Assert(img.RGBAAt(x, y) == want, "pixel does not show its value")
		}
	}
}

// zzvC26 renders small composites.
//
//gosym:job C26 dx=1..4 dy=1..4
func zzvC26() {
	dx, dy := zzv_Param("dx"), zzv_Param("dy")
	data := make([]byte, dx*dy*2)
	for i := range data {
		data[i] = zzv_Byte("data")
	}
	c := zzvComposite("RW", "VS 3PR E+00INT  60GP"+zzvPad(dy, 4)+"x"+zzvPad(dx, 4), data)
	zzvShows(Image(zzvColour, c, 0), zzvColour, c, 0)
	for _, l := range []int{-1, 1, 2, 100, math.MinInt, math.MaxInt} {
		img := Image(zzvColour, c, l)
		zzvSize(img, dx, dy)
		zzvBlank(img)
	}
}

// zzvDress gives a composite attributes that are not shown.
func zzvDress(c *radolan.Composite) {
	c.Product = string([]byte{zzv_Byte("prod"), zzv_Byte("prod")})
	c.DataUnit = radolan.Unit(zzv_Int("unit", 0, 4))
	c.Format = zzv_Int("format", 0, 99)
	c.Interval = time.Duration(zzv_Int("interval", 0, 1<<20)) * time.Minute
	c.HasProjection = zzv_Bool("projection")
	c.Rx, c.Ry = zzv_AnyF64("res"), zzv_AnyF64("res")
	c.Px, c.Py = c.Dx, c.Dy*c.Dz
	c.ForecastTime = c.CaptureTime.Add(c.Interval)
}

// zzvC26Made renders composites made by hand.
//
//gosym:job C26 dz=1..3 dx=1,3 dy=1,2
func zzvC26Made() {
	dx, dy, dz := zzv_Param("dx"), zzv_Param("dy"), zzv_Param("dz")
	c := &radolan.Composite{Dx: dx, Dy: dy, Dz: dz}
	zzvDress(c)
	for z := 0; z < dz; z++ {
		var rows [][]float32
		for y := 0; y < dy; y++ {
			var row []float32
			for x := 0; x < dx; x++ {
				row = append(row, zzv_AnyF32("value"))
			}
			rows = append(rows, row)
		}
		c.DataZ = append(c.DataZ, rows)
	}
	c.Data = c.DataZ[0]
	fn := func(v float64) color.RGBA {
		switch {
		case v != v:
			return color.RGBA{1, 2, 3, 4}
		case v < 0:
			return color.RGBA{9, 9, 9, 9}
		case v < 100:
			return color.RGBA{10, 20, 30, 255}
		}
		return color.RGBA{0, 0, 0, 0xFF}
	}
	for l := -2; l < dz+3; l++ {
		img := Image(fn, c, l)
		if l >= 0 && l < dz {
			zzvShows(img, fn, c, l)
		} else {
			zzvSize(img, dx, dy)
			zzvBlank(img)
		}
	}
}

// zzvC26Layer gives every layer number.
//
//gosym:job C26 dz=0..3
func zzvC26Layer() {
	dz := zzv_Param("dz")
	c := &radolan.Composite{Dx: 2, Dy: 1, Dz: dz}
	zzvDress(c)
	for z := 0; z < dz; z++ {
		c.DataZ = append(c.DataZ, [][]float32{{float32(z) + 1, 50}})
	}
	l := zzv_Int("layer", math.MinInt, math.MaxInt)
	img := Image(zzvColour, c, l)
	zzvSize(img, 2, 1)
	if l < 0 || l >= dz {
		zzvBlank(img)
	} else {
		zzv_Assert(img.RGBAAt(0, 0) == zzvColour(float64(l)+1) && img.RGBAAt(1, 0) == zzvColour(50), "pixel does not show its value")
	}
}

// zzvC26Big renders whole products, with one arbitrary run.
//
//gosym:job C26 prod=0..3 z=0..11
func zzvC26Big() {
	prod := []string{"PG", "PX", "PZ", "PU"}[zzv_Param("prod")]
	z := zzv_Param("z")
	if prod != "PZ" && prod != "PU" {
		z = z % 3
	}
	rows := map[string]int{"PG": 460, "PX": 224, "PZ": 2400, "PU": 2400}[prod]
	cols := 200
	fields := "LV 6  1.0 19.0 28.0 37.0 46.0 55.0CS0MX 0MS  0"
	if prod == "PG" {
		rows, cols = 23, 37
		fields += "GP" + zzvPad(rows, 4) + "x" + zzvPad(cols, 4)
	}
	run := zzv_Byte("run")
	zzv_Assume(run < 0x70 && run != 10)
	var data []byte
	for i := 0; i < rows; i++ {
		// a row is a marker, then a run that depends on the line
		data = append(data, byte(i%200+20), 16)
		if i == (2*z+1)*rows/24 {
			data = append(data, run)
		} else {
			data = append(data, byte(0x10+(i%5)<<4|i%6+1))
		}
		data = append(data, byte(0x20|i%7), 10)
	}
	c := zzvComposite(prod, fields, data)
	if z >= c.Dz {
		img := Image(zzvColour, c, z)
		zzvSize(img, c.Dx, c.Dy)
		zzvBlank(img)
		return
	}
	zzvShows(Image(zzvColour, c, z), zzvColour, c, z)
}

// zzvC26Wide renders wide and high composites.
//
//gosym:job C26 dx=300,5000 dy=1,3
//gosym:job C26 dx=1,3 dy=300,3000
//gosym:job C26 dx=260 dy=259
//gosym:job C26 t=150 samples=1 dx=1400 dy=1500
//gosym:job C26 t=100 samples=1 dx=1100 dy=1200
func zzvC26Wide() {
	dx, dy := zzv_Param("dx"), zzv_Param("dy")
	data := make([]byte, dx*dy)
	for i := range data {
		data[i] = byte(i ^ i>>8*3)
	}
	for i := 0; i < 3; i++ {
		data[i*(len(data)-1)/2] = zzv_Byte("data")
	}
	c := zzvComposite("RW", "VS 3GP"+zzvPad(dy, 4)+"x"+zzvPad(dx, 4), data)
	zzvShows(Image(zzvColour, c, 0), zzvColour, c, 0)
}

// zzvC26Dummy renders composites without data.
//
//gosym:job C26 dims=0..4
func zzvC26Dummy() {
	d := [][2]int{{0, 0}, {3, 2}, {200, 200}, {0, 5}, {900, 900}}[zzv_Param("dims")]
	c := radolan.NewDummy(string([]byte{zzv_Byte("prod"), zzv_Byte("prod")}), zzv_Int("format", 0, 9), d[0], d[1])
	img := Image(zzvColour, c, zzv_Int("layer", math.MinInt, math.MaxInt))
	zzvSize(img, d[0], d[1])
	if d[0] <= 10 {
		zzvBlank(img)
	} else {
		for _, k := range []int{0, 1, d[0] * d[1], d[0]*d[1]*4 - 1} {
			zzv_Assert(img.Pix[k] == 0, "image is not blank")
		}
	}
}
