package radolan

//gosym:bound C16 composites of 1..3 x 1..3 pixels in each encoding, composites of one to three small layers (with and without plain data), values changed through Data and DataZ after parsing, 12-layer and elevation-strip local products, and dummies of arbitrary width and height; every 64-bit position and layer (12-layer products: positions within 3 of a border or outside)

const (
	zzvMinInt = -1 << 63
	zzvMaxInt = 1<<63 - 1
)

func zzvLookup(c *Composite, x, y, z int) {
	got := c.AtZ(x, y, z)
	if x >= 0 && y >= 0 && z >= 0 && x < c.Dx && y < c.Dy && z < c.Dz {
		zzv_Reach("inside")
		zzv_Assert(zzvSame(got, c.DataZ[z][y][x]), "lookup inside differs from the data")
	} else {
		zzv_Reach("outside")
		zzv_Assert(IsNaN(got), "lookup outside is not NaN")
	}
	if z == 0 {
		zzv_Assert(zzvSame(c.At(x, y), got), "two-dimensional lookup is not layer 0")
	}
}

// zzvC16Small looks up any position of a small composite.
//
//gosym:job C16 enc=0,1 rows=1..3 cols=1..3
//gosym:job C16 thorough enc=0,1 rows=4,5 cols=4..7
func zzvC16Small() {
	enc, rows, cols := zzv_Param("enc"), zzv_Param("rows"), zzv_Param("cols")
	var data []byte
	for i := 0; i < rows*cols*(enc+1); i++ {
		data = append(data, byte(1+i))
	}
	data[0] = zzv_Byte("data")
	c, err := zzvParse(zzvStream("RW", zzvStamp, zzvGP(rows, cols), data, 0))
	zzv_Assert(err == nil, "valid data rejected")
	x, y, z := zzv_Int("x", zzvMinInt, zzvMaxInt), zzv_Int("y", zzvMinInt, zzvMaxInt), zzv_Int("z", zzvMinInt, zzvMaxInt)
	zzvLookup(c, x, y, z)
	got := c.At(x, y)
	if x >= 0 && y >= 0 && x < cols && y < rows {
		zzv_Assert(zzvSame(got, c.Data[y][x]), "lookup inside differs from the data")
	} else {
		zzv_Assert(IsNaN(got), "lookup outside is not NaN")
	}
}

// zzvC16Edit changes a value of a parsed composite, through Data or DataZ.
//
//gosym:job C16 enc=0,1 gp=0,1 via=0,1
//gosym:job C16 enc=2 gp=1 via=0,1
func zzvC16Edit() {
	enc, rows, cols := zzv_Param("enc"), 2, 3
	prod, f := "RW", zzvGP(rows, cols)
	var data []byte
	switch {
	case enc == 2:
		f += "LV 1  1.5"
		data = []byte{1, 16, 0x31, '\n', 2, 17, 0x21, '\n'}
	case zzv_Param("gp") == 0:
		sp := zzvLocal[13]
		prod, f, rows, cols = sp.p, "", 200, 200
		data = make([]byte, 200*sp.py*(enc+1))
	default:
		data = make([]byte, rows*cols*(enc+1))
	}
	c, err := zzvParse(zzvStream(prod, zzvStamp, f, data, 0))
	zzv_Assert(err == nil, "valid data rejected")
	x, y := zzv_Choose("x", 3), zzv_Choose("y", 2)
	v := zzv_AnyF32("v")
	old := c.AtZ(x, 1-y, 0)
	if zzv_Param("via") == 0 {
		c.Data[y][x] = v
	} else {
		c.DataZ[0][y][x] = v
	}
	zzv_Assert(zzvSame(c.At(x, y), v), "lookup does not show the stored value")
	zzv_Assert(zzvSame(c.AtZ(x, y, 0), v), "lookup does not show the stored value")
	zzv_Assert(zzvSame(c.AtZ(x, 1-y, 0), old), "another value changed")
}

// zzvC16Layers looks up positions of local products.
//
//gosym:job C16 local=1,13 axis=0..2
func zzvC16Layers() {
	sp := zzvLocal[zzv_Param("local")]
	data := make([]byte, 200*sp.py)
	for i := range data {
		data[i] = byte((i*7 + i/200) % 249)
	}
	c, err := zzvParse(zzvStream(sp.p, zzvStamp, "", data, 0))
	zzv_Assert(err == nil, "valid data rejected")
	axis := zzv_Param("axis")
	in := []int{0, 1, 100, 198, 199}
	pos := func(name string, k int) int {
		if axis == k {
			return zzv_Int(name, zzvMinInt, zzvMaxInt)
		}
		return in[zzv_Choose(name, len(in))]
	}
	x, y := pos("x", 0), pos("y", 1)
	z := zzv_Choose("zc", 14) - 1
	if axis == 2 {
		z = zzv_Int("z", zzvMinInt, zzvMaxInt)
	}
	if axis < 2 {
		zzv_Assume(x < 3 || x > 196 || axis != 0)
		zzv_Assume(y < 3 || y > 196 || axis != 1)
	}
	if axis == 2 && z >= 0 && z < c.Dz {
		z = zzv_Concretize(z)
	}
	if axis == 1 && y >= 0 && y < c.Dy {
		y = zzv_Concretize(y)
	}
	zzvLookup(c, x, y, z)
	zzv_Assert(zzvSame(c.At(x, y), c.AtZ(x, y, 0)), "two-dimensional lookup is not layer 0")
	if axis < 2 && z >= 0 && z < c.Dz && x >= 0 && x < 200 && y >= 0 && y < 200 {
		base := sp.py - 200
		if c.Dz > 1 {
			base = 200 * z
		}
		zzv_Assert(zzvSame(c.AtZ(x, y, z), c.PlainData[base+y][x]), "lookup shows another pixel")
	}
}

// zzvC16Made looks up any position of a composite of several small layers.
//
//gosym:job C16 dz=2,3 dx=1,2 dy=1..3 strip=0,1 plain=1
//gosym:job C16 dz=1..3 dx=1,2 dy=2,3 strip=0,1 plain=0
func zzvC16Made() {
	dz, dx, dy, strip := zzv_Param("dz"), zzv_Param("dx"), zzv_Param("dy"), zzv_Param("strip")
	c := &Composite{Product: "PZ", Dx: dx, Dy: dy, Dz: dz, Px: dx, Py: dy*dz + strip}
	for y := 0; y < c.Py; y++ {
		var row []float32
		for x := 0; x < dx; x++ {
			row = append(row, float32(y*dx+x)+0.5)
		}
		c.PlainData = append(c.PlainData, row)
	}
	for z := 0; z < dz; z++ {
		c.DataZ = append(c.DataZ, c.PlainData[z*dy:(z+1)*dy])
	}
	c.Data = c.DataZ[0]
	if zzv_Param("plain") == 0 { // not from a stream
		c.Px, c.Py, c.PlainData = 0, 0, nil
	}
	x, y, z := zzv_Int("x", zzvMinInt, zzvMaxInt), zzv_Int("y", zzvMinInt, zzvMaxInt), zzv_Int("z", zzvMinInt, zzvMaxInt)
	got := c.AtZ(x, y, z)
	if x >= 0 && y >= 0 && z >= 0 && x < dx && y < dy && z < dz {
		zzv_Assert(got == float32((z*dy+y)*dx+x)+0.5, "lookup inside differs from the data")
	} else {
		zzv_Assert(IsNaN(got), "lookup outside is not NaN")
	}
	zzv_Assert(zzvSame(c.At(x, y), c.AtZ(x, y, 0)), "two-dimensional lookup is not layer 0")
}

// zzvC16Dummy looks up any position of a dummy.
//
//gosym:job C16 dims=0..3 samples=3
func zzvC16Dummy() {
	var dx, dy int
	switch zzv_Param("dims") {
	case 0:
		dx, dy = 900, 900
	case 1:
		dx, dy = 1100, 1200
	case 2:
		dx, dy = 17, 4
	case 3:
		dx, dy = 1+2*zzv_Int("dx", 0, 5000), zzv_Int("dy", -5, 9999)
	}
	c := NewDummy(string(zzvBytes("label", 2)), zzv_Int("format", 0, 9), dx, dy)
	x, y, z := zzv_Int("x", zzvMinInt, zzvMaxInt), zzv_Int("y", zzvMinInt, zzvMaxInt), zzv_Int("z", zzvMinInt, zzvMaxInt)
	zzv_Assert(IsNaN(c.At(x, y)), "dummy has data")
	zzv_Assert(IsNaN(c.AtZ(x, y, z)), "dummy has data")
}

// zzvC16Empty looks up positions of the zero composite and of failed parses.
//
//gosym:job C16 kind=0..2
func zzvC16Empty() {
	var c *Composite
	switch zzv_Param("kind") {
	case 0:
		c = &Composite{}
	case 1:
		c, _ = zzvParse(zzvStream("RW", zzvStamp, zzvGP(2, 2), []byte{1, 2, 3}, 1))
	case 2:
		c, _ = zzvParse(zzvStream("RW", zzvStamp, zzvGP(2, 2), []byte{1, 2, 3}, 0))
	}
	if c == nil {
		return
	}
	zzv_Assert(IsNaN(c.At(zzv_Int("x", zzvMinInt, zzvMaxInt), zzv_Int("y", zzvMinInt, zzvMaxInt))), "lookup without data")
	zzv_Assert(IsNaN(c.AtZ(zzv_Int("x", zzvMinInt, zzvMaxInt), zzv_Int("y", zzvMinInt, zzvMaxInt), zzv_Int("z", zzvMinInt, zzvMaxInt))), "lookup without data")
}
