package radolan

import "strings"

import "strconv"

//gosym:bound C07 declared length: every 7-digit and every 4-digit number, blanks and minus sign included, against 1x1..3x3 pixels with and without level field; complete parses for every declared length within 16 bytes of the real one, and those that are congruent to it modulo 2^8, 2^15, 2^16, 2^31, 2^32, 2^63 and 2^64; local products with their 44800 and 480000 values; headers of up to 9000 bytes

// zzvNoData asserts that a rejected stream gives no values.
func zzvNoData(c *Composite, err error) {
	zzv_Assert(err != nil && err != ErrUnknownUnit, "wrong declared length accepted")
	if c != nil && c.Dz > 0 {
		zzv_Assert(IsNaN(c.At(0, 0)), "rejected stream produced data")
	}
}

// zzvC07Digits has an arbitrary declared length.
//
//gosym:job C07 rows=1..3 cols=1,2 w=7 lv=0
//gosym:job C07 rows=2 cols=2 w=4,5,6 lv=0
//gosym:job C07 rows=1 cols=3 w=8,9 lv=0
//gosym:job C07 rows=2 cols=2 w=7 lv=1
func zzvC07Digits() {
	rows, cols, w := zzv_Param("rows"), zzv_Param("cols"), zzv_Param("w")
	t, n := zzvNumField("by", w, true)
	f := zzvGP(rows, cols) + "MS 7<boo,ros>"
	lv := zzv_Param("lv") == 1
	if lv {
		f = "LV 1  3.5" + f
	}
	head := "RW" + zzvStamp + "BY" + string(t) + f + "\x03"
	data := []byte{1, 16, 0x11, 10, 2, 16, 0x21, 10, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18}
	c, err := zzvParse(append([]byte(head), data...))
	n -= len(head)
	if lv {
		zzv_Assert(err == nil, "run-length data rejected")
		zzv_Assert(c.Data[0][0] == 3.5 && IsNaN(c.Data[0][1]) && c.Data[1][0] == 3.5 && c.Data[1][1] == 3.5, "header with levels not read as run-length data")
		return
	}
	switch n {
	case rows * cols:
		zzv_Reach("single byte")
		zzv_Assert(err == nil, "declared length of single-byte data rejected")
		for k := 0; k < rows*cols; k++ {
			zzv_Assert(c.Data[rows-1-k/cols][k%cols] == float32(data[k]), "not read as single-byte data")
		}
	case 2 * rows * cols:
		zzv_Reach("two bytes")
		zzv_Assert(err == nil, "declared length of 16-bit data rejected")
		for k := 0; k < rows*cols; k++ {
			want, nan := zzvWord("RW", data[2*k], data[2*k+1], 0)
			got := c.Data[rows-1-k/cols][k%cols]
			zzv_Assert(nan && IsNaN(got) || got == want, "not read as 16-bit data")
		}
	default:
		zzvNoData(c, err)
	}
}

// zzvC07Near declares lengths around the real one and supplies data to spare.
//
//gosym:job C07 rows=1..3 cols=1..3 hdr=0..3
//gosym:job C07 rows=7 cols=5 hdr=0
//gosym:job C07 rows=2 cols=2 hdr=200,980,1100,2100,4100,5000,9000
//gosym:job C07 thorough rows=4..9 cols=4..9 hdr=0..2
func zzvC07Near() {
	rows, cols := zzv_Param("rows"), zzv_Param("cols")
	n := rows * cols
	hdr := zzv_Param("hdr")
	if hdr > 3 {
		hdr = 0
	}
	f := []string{zzvGP(rows, cols), "VS 3" + zzvGP(rows, cols) + "MS120<boo,ros,emd,hnr,umd,pro,ess,fld,drs,neu,nhb,oft,eis,tur,isn,fbg,mem>", "", zzvGP(rows, cols) + "MS 9<\u00fc\u65e5\xff>"}[hdr]
	if hdr == 2 {
		f = "BG00" + zzvPad(rows, 1) + "00" + zzvPad(cols, 1)
	}
	if n := zzv_Param("hdr"); n > 3 { // a header of more than n bytes
		f += "MS" + zzvPad(n%1000, 3) + "<" + strings.Repeat("boo,", n/4) + ">"
	}
	decl := zzv_Concretize(zzv_Int("declared", 0, 2*n+16))
	data := make([]byte, 4*n+16)
	for i := range data {
		data[i] = byte(1 + i%7)
	}
	full := zzvStream("RX", zzvStamp, f, data[:decl], 0)
	c, err := zzvParse(append(full, data[decl:]...))
	if decl != n && decl != 2*n {
		zzvNoData(c, err)
		return
	}
	zzv_Assert(err == nil, "right declared length rejected")
	k := n - 1
	raw := int(data[k])
	if decl == 2*n {
		raw = int(data[2*k]) | int(data[2*k+1])<<8
	}
	zzv_Assert(c.Data[0][cols-1] == zzvScaled("RX", raw, 0), "wrong encoding")
}

// zzvC07Local declares lengths around the plain data size of local products.
//
//gosym:job C07 local=2,6,9 delta=-1..1
func zzvC07Local() {
	sp := zzvLocal[zzv_Param("local")]
	n := 200 * sp.py
	for _, decl := range []int{200 * 200, n, 2 * n, 2 * 200 * 200} {
		decl += zzv_Param("delta")
		data := make([]byte, decl)
		c, err := zzvParse(append(zzvStream(sp.p, zzvStamp, "", data, 0), make([]byte, 64)...))
		if decl != n && decl != 2*n {
			zzvNoData(c, err)
			continue
		}
		zzv_Assert(err == nil && c.Px == 200 && c.Py == sp.py, "right declared length rejected")
	}
}

// zzvC07Far declares lengths that are the right one in fewer bits.
//
//gosym:job C07 rows=1..3 cols=1,3
func zzvC07Far() {
	rows, cols := zzv_Param("rows"), zzv_Param("cols")
	n := rows * cols
	data := make([]byte, 4*n+64)
	for i := range data {
		data[i] = byte(1 + i%7)
	}
	f := zzvGP(rows, cols)
	bits := []uint{8, 15, 16, 20, 31, 32, 40, 62}[zzv_Choose("bits", 8)]
	w := 2*n + 64
	for _, total := range []int{n, 2 * n, w} {
		k := 1<<bits + total + len("RW") + len(zzvStamp) + len("BY") + len(f) + 1
		for d := 7; d < 21; d++ {
			t := strconv.Itoa(k + d)
			if len(t) > d {
				continue
			}
			for len(t) < d {
				t = " " + t
			}
			c, err := zzvParse(append([]byte("RW"+zzvStamp+"BY"+t+f+"\x03"), data...))
			zzvNoData(c, err)
			c, err = zzvParse(append([]byte("RW"+zzvStamp+"BY-"+t[1:]+f+"\x03"), data...))
			zzvNoData(c, err)
		}
	}
	for _, t := range []string{"18446744073709551616", "18446744073709551654", "9223372036854775808", "36893488147419103232"} {
		for k := 0; k < 80; k++ {
			b := []byte(t)
			for j, carry := len(b)-1, k; carry > 0; j-- {
				carry += int(b[j] - '0')
				b[j] = '0' + byte(carry%10)
				carry /= 10
			}
			c, err := zzvParse(append([]byte("RW"+zzvStamp+"BY"+string(b)+f+"\x03"), data...))
			zzvNoData(c, err)
		}
	}
}
