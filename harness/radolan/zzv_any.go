package radolan

import (
	"io"
	"time"
)

//gosym:bound C01 every label of a capital letter and a capital letter or digit, with complete headers of arbitrary numbers in each encoding
//gosym:bound C02 every label, as in C01; every label at any capture time
//gosym:bound C03 every label: all fields at once with arbitrary numbers
//gosym:bound C04 every label, with every WMO number and all other fields present
//gosym:bound C05 every label, with four-digit INT and three-digit VV; every label at any capture time
//gosym:bound C06 every label with GP or BG; every label at any capture time
//gosym:bound C07 every label in each encoding, and with a declared length off by up to three; every label at any capture time
//gosym:bound C08 every label with every format version, interval and forecast, 2x3 pixels; every label at any capture time
//gosym:bound C09 every label with every format version, interval and forecast, 2x3 pixels; every label at any capture time
//gosym:bound C10 every label with every format version, interval and forecast, 2x3 pixels; every label at any capture time
//gosym:bound C11 every label with every format version, interval and forecast; every label at any capture time
//gosym:bound C12 every label with every format version, interval and forecast, 2x3 pixels; every label at any capture time
//gosym:bound C13 every label cut at every position of the data; every label at any capture time
//gosym:bound C14 every label read byte by byte and in two pieces; every label at any capture time
//gosym:bound C15 every label with GP or BG: a single layer; every label at any capture time
//gosym:bound C16 every label, every position within 2 of the data; every label at any capture time
//gosym:bound C18 every label with precision E-02 and E+01; every label at any capture time
//gosym:bound C19 every label without a projection

// zzvAnyLabel is an arbitrary product label that is no field label.
func zzvAnyLabel() []byte {
	p := zzvBytes("prod", 2)
	zzv_Assume(p[0] >= 'A' && p[0] <= 'Z')
	capital := p[1] >= 'A' && p[1] <= 'Z'
	zzv_Assume(capital || zzvDig(p[1]))
	for _, k := range []string{"VV", "GP", "BG", "VS", "LV"} {
		zzv_Assume(!(p[0] == k[0] && p[1] == k[1]))
	}
	zzv_Assume(!(p[0] == 'E' && !capital))
	return p
}

// zzvAnyTime is any day, hour, minute, WMO number, month and year.
func zzvAnyTime() []byte {
	dhm, wmo, my := zzvDigits("dhm", 6), zzvDigits("wmo", 5), zzvDigits("my", 4)
	d, hh, mm := zzvNum2(dhm), zzvNum2(dhm[2:]), zzvNum2(dhm[4:])
	m, y := zzvNum2(my), zzvNum2(my[2:])
	zzv_Assume(m >= 1 && m <= 12 && hh < 24 && mm < 60 && d >= 1)
	n := 31
	if m == 4 || m == 6 || m == 9 || m == 11 {
		n = 30
	}
	if m == 2 {
		n = 28
		if y%4 == 0 {
			n = 29
		}
	}
	zzv_Assume(d <= n)
	return append(append(dhm, wmo...), my...)
}

// zzvAny reads a composite of any product with all fields present.
//
//gosym:job C01 samples=10 what=1 enc=0..2 dims=0,1 prec=0 when=0
//gosym:job C01 samples=5 what=1 enc=0..2 dims=0 prec=0 when=1
//gosym:job C02 samples=10 what=2 enc=0..2 dims=0,1 prec=0 when=0
//gosym:job C02 samples=5 what=2 enc=0..2 dims=0 prec=0 when=1
//gosym:job C03 samples=10 what=3 enc=0..2 dims=0,1 prec=0,1 when=0
//gosym:job C03 samples=5 what=3 enc=0..2 dims=0 prec=0 when=1
//gosym:job C04 samples=10 what=4 enc=0..2 dims=0,1 prec=0,1 when=0
//gosym:job C05 samples=10 what=5 enc=0..2 dims=0,1 prec=0 when=0
//gosym:job C05 samples=5 what=5 enc=0..2 dims=0 prec=0 when=1
//gosym:job C06 samples=10 what=6 enc=0..2 dims=0,1 prec=0 when=0
//gosym:job C06 samples=5 what=6 enc=0..2 dims=0 prec=0 when=1
//gosym:job C07 samples=10 what=7 enc=0..2 dims=0,1 prec=0,1 when=0
//gosym:job C07 samples=5 what=7 enc=0..2 dims=0 prec=0 when=1
//gosym:job C08 samples=10 what=8 enc=1 dims=0,1 prec=0..2 when=0
//gosym:job C08 samples=5 what=8 enc=1 dims=0 prec=0 when=1
//gosym:job C09 samples=10 what=9 enc=0 dims=0,1 prec=0..2 when=0
//gosym:job C09 samples=5 what=9 enc=0 dims=0 prec=0 when=1
//gosym:job C10 samples=10 what=10 enc=2 dims=0,1 prec=0..2 when=0
//gosym:job C10 samples=5 what=10 enc=2 dims=0 prec=0 when=1
//gosym:job C11 samples=10 what=11 enc=2 dims=0,1 prec=0..2 when=0
//gosym:job C11 samples=5 what=11 enc=2 dims=0 prec=0 when=1
//gosym:job C12 samples=10 what=12 enc=0..2 dims=0,1 prec=0 when=0
//gosym:job C12 samples=5 what=12 enc=0..2 dims=0 prec=0 when=1
//gosym:job C13 samples=10 what=13 enc=0..2 dims=0 prec=0 when=0
//gosym:job C13 samples=5 what=13 enc=0..2 dims=0 prec=0 when=1
//gosym:job C14 samples=10 what=14 enc=0..2 dims=0 prec=1 when=0
//gosym:job C14 samples=5 what=14 enc=0..2 dims=0 prec=1 when=1
//gosym:job C15 samples=10 what=15 enc=0..2 dims=0,1 prec=0 when=0
//gosym:job C15 samples=5 what=15 enc=0..2 dims=0 prec=0 when=1
//gosym:job C16 samples=10 what=16 enc=0..2 dims=0 prec=0 when=0
//gosym:job C16 samples=5 what=16 enc=0..2 dims=0 prec=0 when=1
//gosym:job C18 samples=10 what=18 enc=0..2 dims=0,1 prec=0..2 when=0
//gosym:job C18 samples=5 what=18 enc=0..2 dims=0 prec=0 when=1
//gosym:job C19 samples=10 what=19 enc=0..2 dims=0,1 prec=0 when=0
//gosym:job C19 samples=5 what=19 enc=0..2 dims=0 prec=0 when=1
func zzvAny() {
	enc, what := zzv_Param("enc"), zzv_Param("what")
	const rows, cols = 2, 3
	p := zzvAnyLabel()
	vs, vv, in := zzvDigits("vs", 1), zzvDigits("vv", 3), zzvDigits("int", 4)
	prec := []int{0, -2, 1}[zzv_Param("prec")]
	f := "VS " + string(vs) + "SW  2.12.0" + []string{"", "PR E-02", "PR E+01"}[zzv_Param("prec")] + "INT" + string(in)
	if zzv_Param("dims") == 0 {
		f += zzvGP(rows, cols)
	} else {
		f += "BG002003"
	}
	f += "VV " + string(vv) + "MF 00000001MS 15<boo,ros,emd>"
	var level []float32
	var data []byte
	switch enc {
	case 0, 1:
		data = zzvBytes("data", rows*cols*(enc+1))
	case 2:
		var lv string
		lv, level = zzvLevels(3)
		f += lv
		v := zzvBytes("value", 4)
		for i := range v {
			zzv_Assume(v[i] < 16)
		}
		no := zzvBytes("no", 2)
		zzv_Assume(no[0] != 10 && no[1] != 10)
		data = []byte{no[0], 16, 0x10 | v[0], 0x20 | v[1], 10, no[1], 17, 0x10 | v[2], 0x10 | v[3], 10}
	}
	stamp := []byte(zzvStamp)
	if what == 4 { // 37 minutes past an arbitrary hour
		copy(stamp[2:], zzvDigits("time", 1))
		stamp[3], stamp[4] = '0', '3'
		copy(stamp[5:], zzvDigits("wmo", 6))
		zzv_Assume(stamp[2] < '3')
		stamp[5] = '7'
	}
	if zzv_Param("when") == 1 {
		stamp = zzvAnyTime()
	}
	s := zzvStream(string(p), string(stamp), f, data, 0)
	hdr := len(s) - len(data)
	u := zzvUnitOf(p)
	c, err := zzvParse(s)
	if what == 1 {
		zzvUse(c, err)
	}
	zzv_Assert(zzvOK(c, err) && (err == nil) == (u != 0), "valid stream rejected")
	dbz := u == 2
	value := func(k int) (v float32, nan bool) { // of pixel k in reading order
		switch enc {
		case 0:
			if data[k] == 250 {
				return 0, true
			}
			v = float32(data[k])
		case 1:
			lo, hi := data[2*k], data[2*k+1]
			if hi>>5&1 == 1 {
				return 0, true
			}
			raw := int(hi&0x0F)<<8 | int(lo)
			if hi>>6&1 == 1 {
				raw = -raw
			}
			v = float32(raw)
		}
		v *= float32(zzvPows[30+prec])
		if dbz {
			v = v/2 - 32.5
		}
		return v, false
	}
	switch what {
	case 2:
		zzvShape(c)
		zzv_Assert(c.Dx == cols && c.Dy == rows && c.Dz == 1 && c.Px == cols && c.Py == rows, "inconsistent shape")
	case 4:
		zzv_Assert(c.CaptureTime.Equal(time.Date(2016, 6, 26, 10*int(stamp[2]-'0'), 37, 0, 0, time.UTC)), "capture time wrong")
	case 3, 5:
		zzv_Assert(c.ForecastTime.Equal(c.CaptureTime.Add(time.Duration(zzvDec(vv))*time.Minute)), "forecast is not VV minutes after capture")
		want := time.Duration(zzvDec(in)) * time.Minute
		if p[0] == 'W' && p[1] >= '1' && p[1] <= '4' {
			want *= 10
		}
		zzv_Assert(c.Interval == want, "interval is not INT minutes")
		if what == 3 {
			zzv_Assert(c.Format == zzvDec(vs), "format version is not VS")
			zzv_Assert(c.Dx == cols && c.Dy == rows, "dimensions are not those of the header")
			zzv_Assert(c.Product == string(p), "other product")
			if enc == 0 {
				v, nan := value(cols)
				zzv_Assert(nan && IsNaN(c.Data[0][0]) || zzvClose32(c.Data[0][0], v, 32.5), "precision is not PR")
			}
		}
	case 6:
		zzv_Assert(c.Dx == cols && c.Dy == rows && c.Px == cols && c.Py == rows, "dimensions are not those of the header")
	case 7:
		for d := -3; d <= 3; d++ {
			if d == 0 || enc == 2 {
				continue
			}
			c, err := zzvParse(append(zzvStream(string(p), string(stamp), f, data, d), 0, 0, 0))
			zzvNoData(c, err)
		}
		if enc < 2 {
			v, nan := value(0)
			zzv_Assert(nan && IsNaN(c.Data[rows-1][0]) || zzvClose32(c.Data[rows-1][0], v, 32.5), "wrong encoding")
			break
		}
		x := data[2] & 15
		zzv_Assert((x > 0 && x < 4) == !IsNaN(c.Data[0][0]) && (IsNaN(c.Data[0][0]) || c.Data[0][0] == level[x-1]), "wrong encoding")
	case 8, 9, 12, 18:
		if enc == 2 {
			row, ok := zzvRowRef(cols, data[:4], level)
			zzv_Assert(ok && zzvSame(c.Data[0][0], row[0]) && zzvSame(c.Data[0][1], row[1]) && zzvSame(c.Data[0][2], row[2]), "line 0 is not row 0")
			row, ok = zzvRowRef(cols, data[5:9], level)
			zzv_Assert(ok && zzvSame(c.Data[1][0], row[0]) && zzvSame(c.Data[1][1], row[1]) && zzvSame(c.Data[1][2], row[2]), "line 1 is not row 1")
			break
		}
		for k := 0; k < rows*cols; k++ {
			got := c.Data[rows-1-k/cols][k%cols]
			v, nan := value(k)
			if nan {
				zzv_Assert(IsNaN(got), "no-data value is not NaN")
				continue
			}
			zzv_Assert(zzvClose32(got, v, 32.5), "value decoded wrongly")
		}
	case 10, 11:
		x := []byte{data[2] & 15, data[3] & 15, data[3] & 15, 0, data[7] & 15, data[8] & 15}
		for k, v := range x {
			got := c.Data[k/cols][k%cols]
			if v == 0 || v > 3 {
				zzv_Assert(IsNaN(got), "pixel without a level has a value")
				continue
			}
			zzv_Assert(got == float32(v)+0.5, "level is not that of the table")
		}
	case 13:
		for n := hdr; n < len(s); n++ {
			_, err := zzvParse(s[:n])
			zzv_Assert(zzvErr(err), "truncated input accepted")
		}
	case 14:
		for _, sizes := range [][]int{{1}, {hdr}, {hdr + 3, 0, 2}, {hdr - 4, 1}} {
			d, e := NewComposite(&zzvReader{b: append(append([]byte{}, s...), 10, 3, 'V'), sizes: sizes, err: io.EOF})
			zzv_Assert(d != nil && e == err, "result depends on the source")
			zzvEqual(c, d)
		}
	case 15:
		zzv_Assert(c.Dz == 1 && len(c.DataZ) == 1 && len(c.DataZ[0]) == rows && len(c.PlainData) == rows, "not a single layer")
		for y := 0; y < rows; y++ {
			for x := 0; x < cols; x++ {
				zzv_Assert(zzvSame(c.DataZ[0][y][x], c.PlainData[y][x]), "layer differs from the plain data")
			}
		}
	case 16:
		for y := -2; y < rows+2; y++ {
			for x := -2; x < cols+2; x++ {
				got, in := c.At(x, y), x >= 0 && y >= 0 && x < cols && y < rows
				zzv_Assert(in && zzvSame(got, c.Data[y][x]) || !in && IsNaN(got), "lookup differs from the data")
				zzv_Assert(zzvSame(c.AtZ(x, y, 0), got) && IsNaN(c.AtZ(x, y, 1)) && IsNaN(c.AtZ(x, y, -1)), "lookup differs from the data")
			}
		}
	case 19:
		zzvNoProj(c)
		zzv_Assert(zzvNaN64(c.Rx) && zzvNaN64(c.Ry), "resolution without projection")
	}
}
