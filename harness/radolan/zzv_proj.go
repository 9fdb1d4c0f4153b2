package radolan

import "math"

// zzvGrid is a documented grid: size at 1 km and corners.
type zzvGrid struct {
	gx, gy         int
	top, left      float64
	bottom, right  float64
	top5, left5    float64 // corners on the ellipsoid
	bottom5, rght5 float64
}

var zzvGrids = []zzvGrid{
	{gx: 900, gy: 900, top: 54.5877, left: 2.0715, bottom: 47.0705, right: 14.6209},
	{gx: 920, gy: 920, top: 54.66218275, left: 1.900684377, bottom: 46.98044293, right: 14.73300934},
	{gx: 900, gy: 1100, top: 55.5482, left: 3.0889, bottom: 46.1827, right: 15.4801},
	{gx: 1100, gy: 1200, top: 55.86584289, left: 1.435612143, bottom: 45.68358331, right: 16.60186543,
		top5: 55.86208711, left5: 1.463301510, bottom5: 45.68460578, rght5: 16.58086935},
	{gx: 1400, gy: 1500, top: 56.5423, left: -0.8654, bottom: 43.8736, right: 18.2536},
}

const zzvDE1200 = 3

// corners gives the corners for a format version.
func (g zzvGrid) corners(format int) (top, left, bottom, right float64) {
	if g.top5 != 0 && format >= 5 {
		return g.top5, g.left5, g.bottom5, g.rght5
	}
	return g.top, g.left, g.bottom, g.right
}

// zzvGridDims gives the grid rescaled by a power of two; k = 0 is the smallest
// size in whole pixels.
func zzvGridDims(g, k int) (dx, dy int) {
	dx, dy = zzvGrids[g].gx, zzvGrids[g].gy
	for dx%2 == 0 && dy%2 == 0 {
		dx, dy = dx/2, dy/2
	}
	for ; k > 0; k-- {
		dx, dy = dx*2, dy*2
	}
	return
}

// zzvGridOf finds the grid with the given dimensions (up to 2^k times the
// smallest size).
func zzvGridOf(dx, dy, k int) int {
	r := -1
	for g := range zzvGrids {
		for i := 0; i <= k; i++ {
			if gx, gy := zzvGridDims(g, i); dx == gx && dy == gy {
				r = g
			}
		}
	}
	return r
}

func zzvHasProj(g, format int) bool { return g >= 0 && (format < 5 || g == zzvDE1200) }

func zzvNaN64(f float64) bool { return f != f }

//gosym:bound C19 dummies of every width and height 0..16383 and format 0..99, with arbitrary product label and coordinates; negative dimensions down to -1024; the known grids rescaled by 13 powers of two up to 2^54, transposed, stretched and off by one, with every format in 41 bits; streams of the smallest size of each grid, transposed and off by one, of 1..4 x 1..4 pixels, and all local products, with every one- and three-digit format version or none

// zzvNoProj asserts what holds without a projection.
func zzvNoProj(c *Composite) {
	zzv_Assert(!c.HasProjection, "projection for an unknown grid")
	x, y := c.Project(zzv_AnyF64("north"), zzv_AnyF64("east"))
	zzv_Assert(zzvNaN64(x) && zzvNaN64(y), "coordinate without projection")
}

// zzvC19Dummy has arbitrary dimensions.
//
//gosym:job C19 neg=0 prod=0,1
//gosym:job C19 neg=1 prod=0
func zzvC19Dummy() {
	prod := "RW"
	if zzv_Param("prod") == 1 {
		prod = string(zzvBytes("prod", 2))
	}
	var dx, dy int
	if zzv_Param("neg") == 1 {
		dx, dy = zzv_Int("dx", -1024, 64), zzv_Int("dy", -1024, 64)
		zzv_Assume(dx < 0 || dy < 0)
	} else {
		dx, dy = zzv_Int("dx", 0, 16383), zzv_Int("dy", 0, 16383)
	}
	format := zzv_Int("format", 0, 99)
	c := NewDummy(prod, format, dx, dy)
	zzv_Assert(c.Dx == dx && c.Dy == dy && c.Product == prod && c.Format == format, "dummy has other attributes than requested")
	g := zzvGridOf(dx, dy, 7)
	if zzvHasProj(g, format) {
		zzv_Reach("projection")
		zzv_Assert(c.HasProjection, "known grid without projection")
		return
	}
	zzv_Reach("no projection")
	zzvNoProj(c)
	zzv_Assert(zzvNaN64(c.Rx) && zzvNaN64(c.Ry), "resolution without projection")
}

// zzvC19Huge has dimensions beyond those a stream can have.
//
//gosym:job C19 grid=0..4
func zzvC19Huge() {
	k := []int{8, 11, 12, 13, 16, 20, 23, 24, 31, 32, 48, 53, 54}[zzv_Choose("k", 13)]
	dx, dy := zzvGridDims(zzv_Param("grid"), k)
	vary := zzv_Choose("vary", 6)
	switch vary {
	case 1:
		dx, dy = dy, dx
	case 2:
		dx *= 2
	case 3:
		dy /= 2
	case 4:
		dx++
	case 5:
		dy--
	}
	format := zzv_Int("format", -1<<40, 1<<40)
	c := NewDummy(string(zzvBytes("label", 2)), format, dx, dy)
	if zzvHasProj(zzvGridOf(dx, dy, 55), format) {
		zzv_Assert(c.HasProjection, "known grid without projection")
		return
	}
	zzvNoProj(c)
	zzv_Assert(zzvNaN64(c.Rx) && zzvNaN64(c.Ry), "resolution without projection")
}

// zzvFormatField is a format version field with an arbitrary digit.
func zzvFormatField() (string, int) {
	if zzv_Choose("vs", 2) == 0 {
		return "", 0
	}
	if zzv_Choose("wide", 2) == 1 { // also more digits than usual
		d := zzvDigits("vs", 3)
		return "VS" + string(d), zzvDec(d)
	}
	d := zzvDigits("vs", 1)
	return "VS " + string(d), zzvDec(d)
}

// zzvC19Stream reads composites from streams.
//
//gosym:job C19 grid=0..4 vary=0..3
func zzvC19Stream() {
	g := zzv_Param("grid")
	dx, dy := zzvGridDims(g, 0)
	switch zzv_Param("vary") {
	case 1:
		dx, dy = dy, dx
	case 2:
		dx++
	case 3:
		dy = 2 * dy
	}
	f, format := zzvFormatField()
	c, err := zzvParse(zzvStream("RX", zzvStamp, zzvGP(dy, dx)+f, make([]byte, dx*dy), 0))
	zzv_Assert(err == nil && c.Dx == dx && c.Dy == dy, "valid stream rejected")
	if zzvHasProj(zzvGridOf(dx, dy, 7), format) {
		zzv_Assert(c.HasProjection, "known grid without projection")
		zzv_Assert(c.Rx > 0 && c.Ry > 0, "no resolution")
		return
	}
	zzvNoProj(c)
	zzv_Assert(zzvNaN64(c.Rx) && zzvNaN64(c.Ry), "resolution without projection")
}

// zzvC19Small reads small composites, which have no projection.
//
//gosym:job C19 rows=1..4 cols=1..4
func zzvC19Small() {
	f, _ := zzvFormatField()
	rows, cols := zzv_Param("rows"), zzv_Param("cols")
	c, err := zzvParse(zzvStream("RW", zzvStamp, zzvGP(rows, cols)+f, zzvBytes("data", rows*cols), 0))
	zzv_Assert(err == nil, "valid stream rejected")
	zzvNoProj(c)
	zzv_Assert(zzvNaN64(c.Rx) && zzvNaN64(c.Ry), "resolution without projection")
}

// zzvC19Local reads local products, which keep the catalogued resolution.
//
//gosym:job C19 local=0..13
func zzvC19Local() {
	sp := zzvLocal[zzv_Param("local")]
	f, _ := zzvFormatField()
	c, err := zzvParse(zzvStream(sp.p, zzvStamp, f, make([]byte, 200*sp.py), 0))
	zzv_Assert(err == nil, "valid stream rejected")
	zzvNoProj(c)
	zzv_Assert(c.Rx == sp.r && c.Ry == sp.r, "resolution of a local product lost")
}

//gosym:bound C20 the five grids (DE1200 on sphere and ellipsoid) at every power of two from the smallest whole-pixel size to 32 times it, and 2^8, 2^12, 2^16 times; corners within 1e-6 of a pixel (plus 1e-11 of the width); extents within 1e-9; doubled dimensions, up to 2^12 times the smallest: every coordinate 43N..58N, 3W..22E within 1e-6 pixels (plus 1e-10 of the width)

// zzvAbs is |x|.
func zzvAbs(x float64) float64 { return math.Abs(x) }

// zzvC20Corners maps the corners of a grid.
//
//gosym:job C20 grid=0..4
func zzvC20Corners() {
	g := zzv_Param("grid")
	k := []int{0, 1, 2, 3, 4, 5, 8, 12, 16}[zzv_Choose("k", 9)]
	format := []int{0, 1, 2, 3, 4, 5, 6, 10, 99}[zzv_Choose("format", 9)]
	if !zzvHasProj(g, format) {
		return
	}
	dx, dy := zzvGridDims(g, k)
	top, left, bottom, right := zzvGrids[g].corners(format)
	c := NewDummy(string(zzvBytes("label", 2)), format, dx, dy)
	tol := 1e-6 + 1e-11*float64(dx)
	x, y := c.Project(top, left)
	zzv_Assert(zzvAbs(x) < tol && zzvAbs(y) < tol, "north-west corner is not at (0, 0)")
	x, y = c.Project(bottom, right)
	zzv_Assert(zzvAbs(x-float64(dx)) < tol && zzvAbs(y-float64(dy)) < tol, "south-east corner is not at (width, height)")
	// extent
	x0, y0 := zzvGridDims(g, 0)
	d := NewDummy(string(zzvBytes("label", 2)), format, x0, y0)
	zzv_Assert(zzvAbs(c.Rx*float64(dx)/(d.Rx*float64(x0))-1) < 1e-9, "extent depends on the resolution")
	zzv_Assert(zzvAbs(c.Ry*float64(dy)/(d.Ry*float64(y0))-1) < 1e-9, "extent depends on the resolution")
	// the known size of the grid in kilometres
	zzv_Assert(zzvAbs(c.Rx*float64(dx)/float64(zzvGrids[g].gx)-1) < 0.002, "extent is not the grid's")
	zzv_Assert(zzvAbs(c.Ry*float64(dy)/float64(zzvGrids[g].gy)-1) < 0.002, "extent is not the grid's")
	zzv_Observe("rx", c.Rx)
}

// zzvCoord is an arbitrary coordinate in the radar area.
func zzvCoord() (north, east float64) {
	if zzv_Param("wide") == 1 { // beyond the radar area
		return zzv_F64("north", 1, 89), zzv_F64("east", -79, 99)
	}
	return zzv_F64("north", 43, 58), zzv_F64("east", -3, 22)
}

// zzvC20Half compares neighbouring resolutions at every coordinate.
//
//gosym:job C20 real nomerge grid=0..4 k=0..3 format=3 wide=0
//gosym:job C20 real nomerge grid=0..4 k=7,11 format=3 wide=0
//gosym:job C20 real nomerge grid=3 k=0..3 format=5,6 wide=0
//gosym:job C20 real nomerge grid=3 k=7,11 format=9 wide=0
func zzvC20Half() {
	g, k, format := zzv_Param("grid"), zzv_Param("k"), zzv_Param("format")
	dx, dy := zzvGridDims(g, k)
	a := NewDummy(string(zzvBytes("label", 2)), format, dx, dy)
	b := NewDummy(string(zzvBytes("label", 2)), format, 2*dx, 2*dy)
	n, e := zzvCoord()
	ax, ay := a.Project(n, e)
	bx, by := b.Project(n, e)
	tol := 1e-6 + 1e-10*float64(dx)
	zzv_Assert(zzvAbs(2*ax-bx) < tol && zzvAbs(2*ay-by) < tol, "coordinates do not scale with the dimensions")
	zzv_Assert(zzvAbs(a.Rx/b.Rx-2) < 1e-9 && zzvAbs(a.Ry/b.Ry-2) < 1e-9, "resolution does not scale with the dimensions")
}

//gosym:bound C21 the five grids at four power-of-two sizes, format versions 0..4: every coordinate 43N..58N, 3W..22E (and 1N..89N, 79W..99E at full size) within 1e-5 pixels of the documented formula (real arithmetic); easting and southing strictly increasing for every pair of coordinates at least 1e-6 degrees apart

const zzvRad = math.Pi / 180

// zzvSphere is the documented polar stereographic projection in km.
func zzvSphere(north, east float64) (x, y float64) {
	m := (1 + math.Sin(60*zzvRad)) / (1 + math.Sin(north*zzvRad))
	r := 6370.04 * m * math.Cos(north*zzvRad)
	x = r * math.Sin((east-10)*zzvRad)
	y = r * math.Cos((east-10)*zzvRad)
	return
}

// zzvC21Formula compares with the documented formula.
//
//gosym:job C21 real nomerge grid=0..4 k=0..3 format=0,3,4 wide=0
//gosym:job C21 real nomerge grid=0..4 k=0 format=4 wide=1
//gosym:job C21 thorough real nomerge grid=0..4 k=0..5 format=0..4 wide=0,1
func zzvC21Formula() {
	g, k, format := zzv_Param("grid"), zzv_Param("k"), zzv_Param("format")
	dx, dy := zzvGridDims(g, k)
	c := NewDummy(string(zzvBytes("label", 2)), format, dx, dy)
	zzv_Assert(c.HasProjection, "no projection")
	ox, oy := zzvSphere(zzvGrids[g].top, zzvGrids[g].left)
	ex, ey := zzvSphere(zzvGrids[g].bottom, zzvGrids[g].right)
	// y grows to the south
	rx, ry := (ex-ox)/float64(dx), (ey-oy)/float64(dy)
	zzv_Assert(zzvAbs(c.Rx/rx-1) < 1e-9 && zzvAbs(c.Ry/ry-1) < 1e-9, "resolution differs from the documented formula")
	n, e := zzvCoord()
	wx, wy := zzvSphere(n, e)
	x, y := c.Project(n, e)
	zzv_Assert(zzvAbs(x-(wx-ox)/rx) < 1e-5, "x differs from the documented formula")
	zzv_Assert(zzvAbs(y-(wy-oy)/ry) < 1e-5, "y differs from the documented formula")
}

// zzvC21Mono moves east and south.
//
//gosym:job C21 real nomerge grid=0..4 dir=0,1 wide=0
func zzvC21Mono() {
	dx, dy := zzvGridDims(zzv_Param("grid"), 2)
	c := NewDummy(string(zzvBytes("label", 2)), 3, dx, dy)
	n, e := zzvCoord()
	if zzv_Param("dir") == 0 {
		e2 := zzv_F64("east2", -3, 22)
		zzv_Assume(e2 >= e+1e-6)
		x, _ := c.Project(n, e)
		x2, _ := c.Project(n, e2)
		zzv_Assert(x2 > x, "moving east does not increase x")
		return
	}
	n2 := zzv_F64("north2", 43, 58)
	zzv_Assume(n2 <= n-1e-6)
	_, y := c.Project(n, 10)
	_, y2 := c.Project(n2, 10)
	zzv_Assert(y2 > y, "moving south does not increase y")
}

//gosym:bound C22 DE1200 at four power-of-two sizes with format versions 5..99 (ellipsoid) and 0..4 (sphere): every coordinate 43N..58N, 3W..22E (and 1N..89N, 79W..99E at full size) within 1e-5 pixels of the reference, whose constants derive from the documented semi-axes and true latitude (real arithmetic)

// zzvEllipsoid is the polar stereographic projection on the WGS84 ellipsoid
// with true scale at 60N and central meridian 10E, in km.
func zzvEllipsoid(north, east float64) (x, y float64) {
	const a, b = 6378137.0, 6356752.3142451802
	ecc := math.Sqrt(1 - b*b/(a*a))
	s60 := math.Sin(60 * zzvRad)
	t60 := math.Tan(15*zzvRad) / math.Pow((1-ecc*s60)/(1+ecc*s60), ecc/2)
	m60 := math.Cos(60*zzvRad) / math.Sqrt(1-ecc*ecc*s60*s60)
	sn := math.Sin(north * zzvRad)
	t := math.Tan((45-north/2)*zzvRad) / math.Pow((1-ecc*sn)/(1+ecc*sn), ecc/2)
	r := a * m60 / t60 * t / 1000
	return r * math.Sin((east-10)*zzvRad), r * math.Cos((east-10)*zzvRad)
}

// zzvC22Formula compares with the reference.
//
//gosym:job C22 real nomerge k=0..3 format=0,4,5,6,9,99 wide=0
//gosym:job C22 real nomerge k=0 format=4,5 wide=1
//gosym:job C22 thorough real nomerge k=0..5 format=0..12 wide=0,1
func zzvC22Formula() {
	k, format := zzv_Param("k"), zzv_Param("format")
	dx, dy := zzvGridDims(zzvDE1200, k)
	c := NewDummy(string(zzvBytes("label", 2)), format, dx, dy)
	zzv_Assert(c.HasProjection, "no projection")
	f := zzvSphere
	if format >= 5 {
		f = zzvEllipsoid
	}
	top, left, bottom, right := zzvGrids[zzvDE1200].corners(format)
	ox, oy := f(top, left)
	ex, ey := f(bottom, right)
	rx, ry := (ex-ox)/float64(dx), (ey-oy)/float64(dy)
	zzv_Assert(zzvAbs(c.Rx/rx-1) < 1e-9 && zzvAbs(c.Ry/ry-1) < 1e-9, "resolution differs from the reference")
	n, e := zzvCoord()
	wx, wy := f(n, e)
	x, y := c.Project(n, e)
	zzv_Assert(zzvAbs(x-(wx-ox)/rx) < 1e-5, "x differs from the reference")
	zzv_Assert(zzvAbs(y-(wy-oy)/ry) < 1e-5, "y differs from the reference")
}

//gosym:bound C19 streams of the dimensions of each grid with any capture time
//gosym:bound C20 streams with any capture time against dummies
//gosym:bound C21 streams with any capture time against dummies
//gosym:bound C22 streams with any capture time against dummies
//gosym:bound C23 dummies with arbitrary label, format 0..9 and the dimensions of each grid at two sizes, local pictures and four other sizes against streams of the same dimensions with arbitrary format digit, other labels, times and precisions, and with any capture time, and in three encodings: every 64-bit coordinate pair

// zzvC23 compares a dummy with a parsed composite.
//
//gosym:job C23 dims=0..8 hdr=0..4 new=0,1
//gosym:job C19 dims=0..8 hdr=4 new=0
//gosym:job C20 dims=0..4 hdr=4 new=0
//gosym:job C21 dims=0..4 hdr=4 new=0
//gosym:job C22 dims=0..4 hdr=4 new=0,1
func zzvC23() {
	var dx, dy int
	switch d := zzv_Param("dims"); d {
	case 5:
		dx, dy = 7, 3
	case 6:
		dx, dy = 200, 200
	case 7:
		dx, dy = 230, 230
	case 8:
		dx, dy = 276, 300
	default:
		dx, dy = zzvGridDims(d, 0)
	}
	vs := zzvDigits("vs", 1)
	zzv_Assume((vs[0] >= '5') == (zzv_Param("new") == 1))
	f := zzvGP(dy, dx) + "VS " + string(vs)
	prod, enc := "RX", 1
	stamp := zzvStamp
	switch zzv_Param("hdr") {
	case 1:
		prod, enc = "SF", 2
		f += "PR E-02INT " + string(zzvDigits("int", 3))
	case 2:
		prod, enc = "PX", 0
		f = "LV 1  2.0" + f + "VV 0" + string(zzvDigits("vv", 2))
	case 3:
		prod = "QQ"
		stamp = "010000999991299"[:13] + "0120"[:2]
		f = "MS 7<boo,ros>" + f
	case 4:
		stamp = string(zzvAnyTime())
	}
	var data []byte
	if enc > 0 {
		data = make([]byte, dx*dy*enc)
		data[0] = zzv_Byte("data")
	} else {
		for i := 0; i < dy; i++ {
			data = append(data, 1, 16, 0x11, 10)
		}
	}
	a, err := zzvParse(zzvStream(prod, stamp, f, data, 0))
	zzv_Assert(zzvOK(a, err), "valid stream rejected")
	b := NewDummy(string(zzvBytes("label", 2)), zzvDec(vs), dx, dy)
	zzv_Assert(a.HasProjection == b.HasProjection, "projection flag differs")
	if a.HasProjection {
		zzv_Assert(a.Rx == b.Rx && a.Ry == b.Ry, "resolution differs")
	}
	n, e := zzv_AnyF64("north"), zzv_AnyF64("east")
	ax, ay := a.Project(n, e)
	bx, by := b.Project(n, e)
	zzvSame64(ax, bx, "x differs")
	zzvSame64(ay, by, "y differs")
}

// zzvSame64 asserts that two numbers are equal or both NaN; equal terms have
// equal bits, which settles it without reasoning about the numbers.
func zzvSame64(a, b float64, msg string) {
	if !zzv_Identical(a, b) {
		zzv_Assert(a == b || zzvNaN64(a) && zzvNaN64(b), msg)
	}
}
