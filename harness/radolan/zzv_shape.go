package radolan

//gosym:bound C02 GP dimensions 1..4 x 1..4 in each of the three encodings with every data byte arbitrary (run-length: every line byte); all 14 local products with GP or BG fields of 1..4 x 1..3 pixels and without in every encoding that fits (200x224 and 200x2400 plain data), data bytes drawn from a pool of arbitrary bytes; 33x57, 2x2100 (rows longer than one read buffer) and 450x30 pixels with pooled data bytes

// zzvViews asserts that rows do not overlap and that layers are views of the
// plain data.
func zzvViews(c *Composite) {
	n := 0
	for y := range c.PlainData {
		for x := range c.PlainData[y] {
			n++
			c.PlainData[y][x] = float32(n)
		}
	}
	n = 0
	for y := range c.PlainData {
		for x := range c.PlainData[y] {
			n++
			zzv_Assert(c.PlainData[y][x] == float32(n), "rows of the plain data overlap")
		}
	}
	base := 0
	if c.Dz == 1 {
		base = c.Py - c.Dy
	}
	for z := range c.DataZ {
		for y := range c.DataZ[z] {
			r := base + z*c.Dy + y
			zzv_Assert(r < len(c.PlainData) && c.DataZ[z][y][0] == c.PlainData[r][0], "layer does not show the plain data")
			c.DataZ[z][y][c.Dx-1] = -float32(n)
			zzv_Assert(c.PlainData[r][c.Dx-1] == -float32(n), "layer is a copy of the plain data")
			c.PlainData[r][0] = float32(n) + 0.5
			zzv_Assert(c.DataZ[z][y][0] == float32(n)+0.5, "layer is a copy of the plain data")
			n++
		}
	}
	for y := range c.Data {
		c.Data[y][0] = 7
		zzv_Assert(c.DataZ[0][y][0] == 7, "2D data is not layer 0")
	}
}

// zzvC02Small has arbitrary data of a small composite.
//
//gosym:job C02 enc=0..2 rows=1..4 cols=1..4
func zzvC02Small() {
	enc, rows, cols := zzv_Param("enc"), zzv_Param("rows"), zzv_Param("cols")
	f := zzvGP(rows, cols)
	var data []byte
	switch enc {
	case 0, 1:
		data = zzvBytes("data", rows*cols*(enc+1))
	case 2:
		f += "LV 2  1.0 19.0"
		for i := 0; i < rows; i++ {
			data = append(data, 1)
			if rows > 2 && i > 0 && i < rows-1 {
				data = append(data, 16, 0x12, 10)
				continue
			}
			l := zzvBytes("line", 2)
			zzv_Assume(l[0] != 10 && l[1] != 10)
			data = append(data, l[0], l[1], 10)
		}
	}
	c, err := zzvParse(zzvStream("RW", zzvStamp, f, data, 0))
	if !zzvOK(c, err) {
		zzv_Assert(enc == 2, "valid binary data rejected")
		return
	}
	zzv_Reach("parsed")
	zzvShape(c)
	zzv_Assert(c.Dx == cols && c.Dy == rows && c.Dz == 1, "unexpected dimensions")
	zzvViews(c)
}

// zzvPool returns n bytes that repeat k arbitrary ones.
func zzvPool(name string, n, k int) []byte {
	p := zzvBytes(name, k)
	b := make([]byte, n)
	for i := range b {
		b[i] = p[i%k]
	}
	return b
}

// zzvMix returns n bytes, k of each 61 arbitrary and the others distinct.
func zzvMix(name string, n, k int) []byte {
	p := zzvBytes(name, k)
	b := make([]byte, n)
	for i := range b {
		if i%61 < k {
			b[i] = p[i%61]
		} else {
			b[i] = byte(i % 247)
		}
	}
	return b
}

// zzvLocalStream is a local product with pooled data in the given encoding.
func zzvLocalStream(p string, enc int) (s []byte, py int) {
	for _, sp := range zzvLocal {
		if sp.p == p {
			py = sp.py
		}
	}
	n := 200 * py
	f := ""
	var data []byte
	switch enc {
	case 0, 1:
		data = zzvMix("data", n*(enc+1), 7)
	case 2:
		f = "LV 3-31.5  1.0 19.0"
		a := zzv_Byte("run")
		zzv_Assume(a != 10)
		for i := 0; i < py; i++ {
			data = append(data, 1, byte(16+i%180), 0x21, a, 10)
		}
	}
	return zzvStream(p, zzvStamp, f, data, 0), py
}

// zzvC02Local parses local products, which have layers or an elevation strip.
//
//gosym:job C02 local=0..13 enc=0
//gosym:job C02 local=5,11,13 enc=1,2
//gosym:job C02 thorough local=0..13 enc=1,2
func zzvC02Local() {
	sp := zzvLocal[zzv_Param("local")]
	s, py := zzvLocalStream(sp.p, zzv_Param("enc"))
	copy(s[2:17], zzvAnyTime())
	c, err := zzvParse(s)
	zzv_Assert(zzvOK(c, err), "valid local product rejected")
	zzvShape(c)
	zzv_Assert(c.Dx == 200 && c.Dy == 200 && c.Px == 200 && c.Py == py, "unexpected dimensions")
	if py%200 == 0 {
		zzv_Assert(c.Dz == py/200, "unexpected number of layers")
	} else {
		zzv_Assert(c.Dz == 1, "unexpected number of layers")
	}
	zzvViews(c)
}

// zzvC02Given parses local products whose dimensions are given.
//
//gosym:job C02 local=0..13 bg=0,1 enc=0..2
func zzvC02Given() {
	sp := zzvLocal[zzv_Param("local")]
	rows, cols := 1+zzv_Choose("rows", 4), 1+zzv_Choose("cols", 3)
	rows, cols = zzv_Concretize(rows), zzv_Concretize(cols)
	f := zzvGP(rows, cols)
	if zzv_Param("bg") == 1 {
		f = "BG00" + zzvPad(rows, 1) + "00" + zzvPad(cols, 1)
	}
	var data []byte
	switch enc := zzv_Param("enc"); enc {
	case 0, 1:
		data = zzvMix("data", rows*cols*(enc+1), 3)
	case 2:
		f += "LV 3-31.5  1.0 19.0"
		for i := 0; i < rows; i++ {
			data = append(data, 1, 16, 0x11, 10)
		}
	}
	c, err := zzvParse(zzvStream(sp.p, zzvStamp, f, data, 0))
	zzv_Assert(zzvOK(c, err), "valid product rejected")
	zzvShape(c)
	zzv_Assert(c.Dx == cols && c.Dy == rows && c.Px == cols && c.Py == rows && c.Dz == 1, "unexpected dimensions")
	zzvViews(c)
}

// zzvC02Mid parses larger composites.
//
//gosym:job C02 enc=0,1 rows=33 cols=57
//gosym:job C02 enc=0,1 rows=2 cols=2100
//gosym:job C02 enc=0,1 rows=450 cols=30
func zzvC02Mid() {
	enc, rows, cols := zzv_Param("enc"), zzv_Param("rows"), zzv_Param("cols")
	c, err := zzvParse(zzvStream("SF", zzvStamp, zzvGP(rows, cols), zzvPool("data", rows*cols*(enc+1), 5), 0))
	zzv_Assert(zzvOK(c, err), "valid binary data rejected")
	zzvShape(c)
	zzv_Assert(c.Dx == cols && c.Dy == rows && c.Dz == 1, "unexpected dimensions")
	zzvViews(c)
}
