package radolan

import "math"

// zzvProducts: dBZ, mm, km, m/s and unknown units.
var zzvProducts = []string{"RX", "RW", "PE", "PR", "QQ", "FX", "W1"}

// zzvProduct is one of zzvProducts, then of all catalogued labels.
func zzvProduct(i int) string {
	if i < len(zzvProducts) {
		return zzvProducts[i]
	}
	i -= len(zzvProducts)
	for _, l := range zzvUnits {
		if n := (len(l) + 1) / 3; i >= n {
			i -= n
			continue
		}
		return l[3*i : 3*i+2]
	}
	return "Z9"
}

// zzvIsDBZ tells whether the product is a reflectivity. The labels "d" and "-"
// stand for a product with and one without (zzvShort).
func zzvIsDBZ(prod string) bool {
	if len(prod) == 1 {
		return prod == "d"
	}
	return zzvUnitOf([]byte(prod)) == 2
}

func zzvShort(prod string) string {
	if zzvIsDBZ(prod) {
		return "d"
	}
	return "-"
}

// zzvScaled is raw * 10^p, then v/2-32.5 for reflectivity products.
func zzvScaled(prod string, raw, p int) float32 {
	v := float32(raw) * float32(math.Pow10(p))
	if zzvIsDBZ(prod) {
		return v/2.0 - 32.5
	}
	return v
}

// zzvScale is the size of the constants involved.
func zzvScale(prod string) float64 {
	if zzvIsDBZ(prod) {
		return 32.5
	}
	return 0
}

//gosym:bound C09 products RX, FX (dBZ), RW, W1 (mm), PE (km), PR (m/s) and an uncatalogued one, without precision field every catalogued product; precision fields absent and E-03..E+03; 2x2 pixels, every byte value of every pixel

// zzvC09 decodes a 2x2 single-byte composite with arbitrary bytes.
//
//gosym:job C09 prec=-3..3,99 prod=0..6 samples=1
//gosym:job C09 prec=99 prod=7..75 samples=1
func zzvC09() {
	prec := zzv_Param("prec")
	prod := zzvProduct(zzv_Param("prod"))
	f := zzvGP(2, 2)
	if prec != 99 {
		f += zzvPR(prec)
	} else {
		prec = 0
	}
	data := zzvBytes("data", 4)
	c, err := zzvParse(zzvStream(prod, zzvStamp, f, data, 0))
	zzv_Assert(zzvOK(c, err), "valid single-byte composite rejected")
	for k, b := range data {
		got := c.PlainData[1-k/2][k%2]
		if b == 250 {
			zzv_Assert(IsNaN(got), "byte 250 is not NaN")
			continue
		}
		zzv_Assert(zzvClose32(got, zzvScaled(prod, int(b), prec), zzvScale(prod)), "single byte decoded to a wrong value")
	}
	zzv_Observe("row0", c.PlainData[0])
	zzv_Observe("row1", c.PlainData[1])
}

//gosym:bound C08 products RX, FX (dBZ), RW, W1 (mm), PE (km), PR (m/s) and an uncatalogued one, without precision field every catalogued product; precision fields absent and E-03..E+03; 1x1, 1x3 and 2x1 pixels, every 16-bit word at every pixel

func zzvWord(prod string, lo, hi byte, prec int) (v float32, nan bool) {
	if hi>>5&1 == 1 {
		return 0, true
	}
	raw := int(hi&0x0F)<<8 | int(lo)
	if hi>>6&1 == 1 {
		raw = -raw
	}
	return zzvScaled(prod, raw, prec), false
}

// zzvC08 decodes 16-bit data with arbitrary words.
//
//gosym:job C08 prec=-3..3,99 prod=0..6 shape=0 samples=1
//gosym:job C08 prec=-1,99 prod=0,1 shape=1,2
//gosym:job C08 prec=99 prod=7..75 shape=0 samples=1
func zzvC08() {
	prec := zzv_Param("prec")
	prod := zzvProduct(zzv_Param("prod"))
	rows, cols := 1, 1
	switch zzv_Param("shape") {
	case 1:
		rows, cols = 2, 1
	case 2:
		rows, cols = 1, 3
	}
	f := zzvGP(rows, cols)
	if prec != 99 {
		f += zzvPR(prec)
	} else {
		prec = 0
	}
	data := zzvBytes("data", 2*rows*cols)
	c, err := zzvParse(zzvStream(prod, zzvStamp, f, data, 0))
	zzv_Assert(zzvOK(c, err), "valid 16-bit composite rejected")
	for k := 0; k < rows*cols; k++ {
		got := c.PlainData[rows-1-k/cols][k%cols]
		want, nan := zzvWord(prod, data[2*k], data[2*k+1], prec)
		if nan {
			zzv_Assert(IsNaN(got), "no-data flag ignored")
			continue
		}
		zzv_Assert(zzvClose32(got, want, zzvScale(prod)), "16-bit word decoded to a wrong value")
	}
	for y := range c.PlainData {
		zzv_Observe("row", c.PlainData[y])
	}
}
