package radolan

//gosym:bound C12 single-byte, 16-bit and run-length data of every size 1..8 x 1..8 with every raw byte arbitrary (run-length: offset, run and line number of every line); 1x5000, 3x1400, 2x2049, 700x3 and 130x31 pixels (rows and data longer than the 4096-byte read buffer) with all raw bytes arbitrary; 450x450, 460x460, 900x900, 1100x900, 9999x2 and 2x9999, 1200x1100 and 1500x1400 pixels with pooled arbitrary bytes; up to 9999 run-length lines; all local products with pooled arbitrary bytes and distinguishable rows and columns

// zzvRefValue decodes the k-th value of binary data.
func zzvRefValue(prod string, enc int, data []byte, k, prec int) (v float32, nan bool) {
	if enc == 0 {
		if data[k] == 250 {
			return 0, true
		}
		return zzvScaled(prod, int(data[k]), prec), false
	}
	return zzvWord(prod, data[2*k], data[2*k+1], prec)
}

// zzvCheckBinary asserts that every plain pixel holds its own raw value.
func zzvCheckBinary(c *Composite, prod string, enc int, data []byte, prec int) {
	prod = zzvShort(prod)
	for k := 0; k < c.Px*c.Py; k++ {
		want, nan := zzvRefValue(prod, enc, data, k, prec)
		got := c.PlainData[c.Py-1-k/c.Px][k%c.Px]
		if nan {
			zzv_Assert(IsNaN(got), "no-data pixel has a value")
			continue
		}
		zzv_Assert(zzvClose32(got, want, zzvScale(prod)), "pixel does not hold its own raw value")
	}
}

// zzvC12Binary has arbitrary binary data.
//
//gosym:job C12 samples=1 enc=0,1 rows=1..8 cols=1..8 prod=0
//gosym:job C12 samples=1 enc=0 rows=1 cols=5000 prod=1
//gosym:job C12 samples=1 enc=0 rows=3 cols=1400 prod=1
//gosym:job C12 samples=1 enc=0 rows=700 cols=3 prod=1
//gosym:job C12 samples=1 enc=0 rows=130 cols=31 prod=1
//gosym:job C12 samples=1 enc=1 rows=2 cols=2049 prod=1
//gosym:job C12 samples=1 enc=1 rows=41 cols=29 prod=0
//gosym:job C12 thorough samples=1 enc=0,1 rows=9..20 cols=9..20 prod=0,1
func zzvC12Binary() {
	enc, rows, cols := zzv_Param("enc"), zzv_Param("rows"), zzv_Param("cols")
	prod := []string{"RX", "SF"}[zzv_Param("prod")]
	data := zzvBytes("data", rows*cols*(enc+1))
	c, err := zzvParse(zzvStream(prod, zzvStamp, zzvGP(rows, cols), data, 0))
	zzv_Assert(err == nil, "valid data rejected")
	zzvCheckBinary(c, prod, enc, data, 0)
	for y := 0; y < rows; y++ {
		for x := 0; x < cols; x++ {
			zzv_Assert(zzvSame(c.Data[y][x], c.PlainData[y][x]), "data differs from plain data")
		}
	}
	zzv_Observe("row", c.Data[0])
}

// zzvC12Full reads a composite of the size of a whole grid.
//
//gosym:job C12 samples=1 enc=0 rows=450 cols=450 prod=0
//gosym:job C12 samples=1 enc=1 rows=900 cols=900 prod=1
//gosym:job C12 samples=1 enc=0,1 rows=2 cols=9999 prod=0
//gosym:job C12 samples=1 enc=0,1 rows=9999 cols=2 prod=1
//gosym:job C12 t=150 samples=1 enc=0,1 rows=1500 cols=1400 prod=0
//gosym:job C12 t=120 samples=1 enc=0,1 rows=1200 cols=1100 prod=1
//gosym:job C12 samples=1 enc=0,1 rows=1100 cols=900 prod=0
//gosym:job C12 samples=1 enc=0,1 rows=460 cols=460 prod=1
func zzvC12Full() {
	enc, rows, cols := zzv_Param("enc"), zzv_Param("rows"), zzv_Param("cols")
	prod := []string{"RX", "SF"}[zzv_Param("prod")]
	p := zzvBytes("data", 6)
	data := make([]byte, rows*cols*(enc+1))
	for i := range data {
		data[i] = byte(i + i>>7*3 + i>>13*5)
		if enc == 1 && i&1 == 1 {
			data[i] &= 0x0F
		}
		if i%10007 == 0 {
			data[i] = p[i/10007%6]
		}
	}
	c, err := zzvParse(zzvStream(prod, zzvStamp, zzvGP(rows, cols), data, 0))
	zzv_Assert(err == nil, "valid data rejected")
	zzvCheckBinary(c, prod, enc, data, 0)
}

// zzvC12Runs has one arbitrary run in each line.
//
//gosym:job C12 rows=1..8 cols=1..8
//gosym:job C12 rows=60 cols=4
func zzvC12Runs() {
	rows, cols := zzv_Param("rows"), zzv_Param("cols")
	f, level := zzvLevels(9)
	var data []byte
	for y := 0; y < rows; y++ {
		no, v := zzv_Byte("no"), zzv_Byte("value")
		zzv_Assume(no != 10 && v < 16)
		// pixel y%cols carries an arbitrary level
		data = append(data, no, byte(16+y%cols), 0x10|v, 10)
	}
	c, err := zzvParse(zzvStream("PG", zzvStamp, f+zzvGP(rows, cols), data, 0))
	zzv_Assert(err == nil, "valid data rejected")
	for y := 0; y < rows; y++ {
		v := data[4*y+2] & 15
		for x := 0; x < cols; x++ {
			got := c.Data[y][x]
			if x != y%cols || v == 0 || int(v) > len(level) {
				zzv_Assert(IsNaN(got), "pixel without run has a value")
				continue
			}
			zzv_Assert(got == level[v-1], "line k is not row k")
		}
	}
}

// zzvC12RunsLong has more lines than a line number can tell apart.
//
//gosym:job C12 rows=300,2600,9999
func zzvC12RunsLong() {
	rows := zzv_Param("rows")
	f, level := zzvLevels(9)
	p := zzvBytes("value", 4)
	for i := range p {
		zzv_Assume(p[i] < 16)
	}
	var data []byte
	for y := 0; y < rows; y++ {
		v := byte((y + y/16*3 + y/256*5) % 11)
		if y%701 == 300 {
			v = p[y/701%4]
		}
		data = append(data, byte(y)|16, byte(16+y%3), 0x10|v, 10)
	}
	c, err := zzvParse(zzvStream("PG", zzvStamp, f+zzvGP(rows, 3), data, 0))
	zzv_Assert(err == nil, "valid data rejected")
	for y := 0; y < rows; y++ {
		v := data[4*y+2] & 15
		for x := 0; x < 3; x++ {
			got := c.Data[y][x]
			if x != y%3 || v == 0 || int(v) > len(level) {
				zzv_Assert(IsNaN(got), "pixel without run has a value")
				continue
			}
			zzv_Assert(got == level[v-1], "line k is not row k")
		}
	}
}

// zzvMarked is pooled data in which every row and column of a local product
// is distinguishable.
func zzvMarked(py, enc int) []byte {
	p := zzvBytes("data", 5)
	data := make([]byte, 200*py*(enc+1))
	for k := 0; k < 200*py; k++ {
		r, x := k/200, k%200
		if enc == 0 {
			data[k] = byte((r*7 + x + r/13) % 249)
			if x%67 == r%67 {
				data[k] = p[r%5]
			}
			continue
		}
		w := (r*31 + x*2) % 4096
		data[2*k], data[2*k+1] = byte(w), byte(w>>8)
		if x%67 == r%67 {
			data[2*k] = p[r%5]
			data[2*k+1] = byte(w>>8) | p[(r+1)%5]&0xF0
		}
	}
	return data
}

// zzvC12Local places the values of local products.
//
//gosym:job C12 samples=1 local=0..13 enc=0,1
func zzvC12Local() {
	sp, enc := zzvLocal[zzv_Param("local")], zzv_Param("enc")
	data := zzvMarked(sp.py, enc)
	c, err := zzvParse(zzvStream(sp.p, string(zzvAnyTime()), "", data, 0))
	zzv_Assert(err == nil, "valid data rejected")
	prod := "RW"
	if c.DataUnit == Unit_dBZ {
		prod = "RX"
	}
	zzvCheckBinary(c, prod, enc, data, 0)
}

//gosym:bound C12 local products: any capture time
//gosym:bound C15 any capture time; all 14 local products (12 layers or elevation strip) in single-byte and 16-bit encoding and two in run-length encoding, with pooled arbitrary bytes and distinguishable rows and columns; GP and BG headers for local product labels of 1..4 x 1..4 pixels

// zzvC15Local checks layers and strips against the raw data.
//
//gosym:job C15 local=0..13 enc=0
//gosym:job C15 local=0..13 enc=1
func zzvC15Local() {
	sp, enc := zzvLocal[zzv_Param("local")], zzv_Param("enc")
	data := zzvMarked(sp.py, enc)
	c, err := zzvParse(zzvStream(sp.p, string(zzvAnyTime()), "", data, 0))
	zzv_Assert(err == nil, "valid data rejected")
	prod := "RW"
	if c.DataUnit == Unit_dBZ {
		prod = "RX"
	}
	prod = zzvShort(prod)
	layers, base := 1, sp.py-200
	if sp.py%200 == 0 {
		layers, base = sp.py/200, 0
	}
	zzv_Assert(c.Dz == layers && len(c.DataZ) == layers, "wrong number of layers")
	for z := 0; z < layers; z++ {
		for y := 0; y < 200; y++ {
			r := base + 200*z + y
			for x := 0; x < 200; x++ {
				want, nan := zzvRefValue(prod, enc, data, 200*(sp.py-1-r)+x, 0)
				got := c.DataZ[z][y][x]
				if nan {
					zzv_Assert(IsNaN(got), "no-data pixel has a value")
					continue
				}
				zzv_Assert(zzvClose32(got, want, zzvScale(prod)), "layer holds wrong rows of the plain data")
			}
		}
	}
}

// zzvC15Runs checks layers and strips of run-length data.
//
//gosym:job C15 local=11,13
func zzvC15Runs() {
	sp := zzvLocal[zzv_Param("local")]
	f, level := zzvLevels(12)
	v := zzv_Byte("value")
	zzv_Assume(v > 0 && v <= 12)
	var data []byte
	for r := 0; r < sp.py; r++ {
		n := 0x10 | v
		if r%3 > 0 {
			n = byte(0x10 | 1 + r/3%12)
		}
		data = append(data, 1, byte(16+r%200), n, 10)
	}
	c, err := zzvParse(zzvStream(sp.p, zzvStamp, f, data, 0))
	zzv_Assert(err == nil, "valid data rejected")
	layers, base := 1, sp.py-200
	if sp.py%200 == 0 {
		layers, base = sp.py/200, 0
	}
	zzv_Assert(c.Dz == layers, "wrong number of layers")
	for z := 0; z < layers; z++ {
		for y := 0; y < 200; y++ {
			r := base + 200*z + y
			for x := 0; x < 200; x += 1 {
				got := c.DataZ[z][y][x]
				if x != r%200 {
					zzv_Assert(IsNaN(got), "pixel without run has a value")
					continue
				}
				zzv_Assert(got == level[data[4*r+2]&15-1], "layer holds wrong rows of the plain data")
			}
		}
	}
}

// zzvC15GP gives local product labels their own dimensions: one layer.
//
//gosym:job C15 rows=1..4 cols=1..4 bg=0,1 prod=0..2
func zzvC15GP() {
	rows, cols := zzv_Param("rows"), zzv_Param("cols")
	f := zzvGP(rows, cols)
	if zzv_Param("bg") == 1 {
		f = "BG00" + zzvPad(rows, 1) + "00" + zzvPad(cols, 1)
	}
	data := zzvBytes("data", rows*cols)
	prod := []string{"PX", "PZ", "RW"}[zzv_Param("prod")]
	c, err := zzvParse(zzvStream(prod, zzvStamp, f, data, 0))
	zzv_Assert(err == nil, "valid data rejected")
	zzv_Assert(c.Dz == 1 && len(c.DataZ) == 1, "more than one layer")
	for y := 0; y < rows; y++ {
		for x := 0; x < cols; x++ {
			zzv_Assert(zzvSame(c.DataZ[0][y][x], c.PlainData[y][x]), "layer differs from plain data")
		}
	}
}
