package radolan

import (
	"time"
)

//gosym:bound C03 all orders of the fields VS, PR/E, INT, VV, GP (every digit of every number symbolic) and all orders of LV with three others (numbers right-aligned or followed by blanks); unrelated fields with a text of up to 9000 bytes, with one- and two-letter labels and up to four arbitrary characters or six texts with characters beyond ASCII at every place between the fields; every label trailing without text

type zzvField struct {
	label string
	text  []byte
}

// zzvPerm is the k-th permutation of n elements.
func zzvPerm(n, k int) []int {
	var left, p []int
	for i := 0; i < n; i++ {
		left = append(left, i)
	}
	for i := n; i > 0; i-- {
		j := k % i
		k /= i
		p = append(p, left[j])
		left = append(append([]int(nil), left[:j]...), left[j+1:]...)
	}
	return p
}

func zzvJoin(fs []zzvField) string {
	var b []byte
	for _, f := range fs {
		b = append(b, f.label...)
		b = append(b, f.text...)
	}
	return string(b)
}

// zzvVals are the values that header fields declare.
type zzvVals struct {
	vv, in, vs, prec, dy, dx int
}

// zzvSymFields are fields with symbolic numbers.
func zzvSymFields() ([]zzvField, zzvVals) {
	var v zzvVals
	vv, in, vs, pr := zzvDigits("vv", 3), zzvDigits("in", 2), zzvDigits("vs", 1), zzvDigits("pr", 2)
	gy, gx := zzvDigits("gy", 2), zzvDigits("gx", 1)
	zzv_Assume(gy[1] != '0' && gx[0] != '0')
	v = zzvVals{zzvDec(vv), zzvDec(in), zzvDec(vs), -zzvDec(pr), zzvDec(gy), zzvDec(gx)}
	return []zzvField{
		{"VS", append([]byte(" "), vs...)},
		{"PR", append([]byte(" E-"), pr...)},
		{"INT", append([]byte("  "), in...)},
		{"VV", append([]byte(" "), vv...)},
		{"GP", append(append(append([]byte("  "), gy...), "x   "...), gx...)},
		{"SW", []byte("   2.13.1")},
		{"MS", []byte(" 22<boo,ros,emd,hnr,umd>")},
	}, v
}

func zzvCheckVals(c *Composite, v zzvVals) {
	zzv_Assert(c.ForecastTime.Sub(c.CaptureTime) == time.Duration(v.vv)*time.Minute, "VV misread")
	zzv_Assert(c.Interval == time.Duration(v.in)*time.Minute, "INT misread")
	zzv_Assert(c.Format == v.vs, "VS misread")
	zzv_Assert(c.precision == v.prec, "E misread")
	zzv_Assert(c.Dy == v.dy && c.Dx == v.dx && c.Py == v.dy && c.Px == v.dx, "GP misread")
}

// zzvC03Perm permutes all numeric fields.
//
//gosym:job C03 perm=0..119
func zzvC03Perm() {
	fs, v := zzvSymFields()
	var g []zzvField
	for i, j := range zzvPerm(5, zzv_Param("perm")) {
		if i == 2 {
			g = append(g, fs[5+zzv_Param("perm")%2])
		}
		g = append(g, fs[j])
	}
	c, err := zzvHeader(zzvStream("RW", zzvStamp, zzvJoin(g), nil, 0))
	zzv_Assert(err == nil, "valid header rejected")
	zzvCheckVals(c, v)
	zzv_Assert(c.level == nil, "levels without level field")
	zzv_Observe("vv", int(c.ForecastTime.Sub(c.CaptureTime)))
	zzv_Observe("prec", c.precision)
}

// zzvC03Level permutes a level field with others and checks the parsed data.
//
//gosym:job C03 perm=0..23 pad=0
//gosym:job C03 perm=0..23 pad=1,2
func zzvC03Level() {
	d := zzvDigits("lv", 3)
	lv := append([]byte(" 2  1.0 "), d[0], d[1], '.', d[2])
	switch zzv_Param("pad") { // blanks around the numbers
	case 1:
		lv = append([]byte(" 2 1.0 "), d[0], d[1], '.', d[2], ' ')
	case 2:
		lv = append([]byte("2 1.0  "), d[0], d[1], '.', ' ', ' ')
		d[2] = '0'
	}
	fs := []zzvField{
		{"LV", lv},
		{"CS", []byte("0")},
		{"MX", []byte(" 7")},
		{"BG", []byte("001002")},
	}
	var g []zzvField
	for _, j := range zzvPerm(4, zzv_Param("perm")) {
		g = append(g, fs[j])
	}
	g = append(g, zzvField{"MS", []byte(" 7<boo,ros>")})
	c, err := zzvParse(zzvStream("PG", zzvStamp, zzvJoin(g), []byte{1, 16, 0x11, 0x12, 10}, 0))
	zzv_Assert(err == nil, "valid header rejected")
	zzv_Assert(c.Dx == 2 && c.Dy == 1, "BG misread")
	zzv_Assert(c.Format == 0 && c.Interval == 0 && c.precision == 0 && c.ForecastTime.Equal(c.CaptureTime), "default of an absent field changed")
	zzv_Assert(c.Data[0][0] == 1 && zzvClose32(c.Data[0][1], float32(zzvDec(d))/10, 0), "LV misread")
}

// zzvC03Extra inserts an unrelated field between the others.
//
//gosym:job C03 at=0..5 n=0..4 two=0,1
//gosym:job C03 thorough at=0..5 n=5,6 two=0,1
func zzvC03Extra() {
	fs, v := zzvSymFields()
	n, at := zzv_Param("n"), zzv_Param("at")
	t := zzvBytes("txt", n)
	for _, b := range t {
		zzv_Assume(b != 3 && (b < 'A' || b > 'Z') && b < 128)
	}
	l := zzvBytes("label", 1+zzv_Param("two"))
	for _, b := range l {
		zzv_Assume(b >= 'A' && b <= 'Z')
	}
	if len(l) == 1 {
		zzv_Assume(l[0] != 'E')
	} else {
		for _, k := range []string{"VV", "GP", "BG", "VS", "LV", "BY"} {
			zzv_Assume(string(l) != k)
		}
		zzv_Assume(!(l[0] == 'R' && l[1] == 'W'))
	}
	if n == 0 && at < 5 {
		t = []byte(" ") // a label without text would merge with the next one
	}
	var g []zzvField
	for i := 0; i < 5; i++ {
		if i == at {
			g = append(g, zzvField{string(l), t})
		}
		g = append(g, fs[i])
	}
	if at == 5 {
		g = append(g, zzvField{string(l), t})
	}
	c, err := zzvHeader(zzvStream("RW", zzvStamp, zzvJoin(g), nil, 0))
	zzv_Assert(err == nil, "valid header rejected")
	zzvCheckVals(c, v)
	zzv_Assert(c.level == nil, "levels without level field")
}

// zzvC03Absent leaves fields out; absent fields keep their defaults.
//
//gosym:job C03 mask=0..15 order=0,1
func zzvC03Absent() {
	fs, v := zzvSymFields()
	mask := zzv_Param("mask")
	g := []zzvField{fs[4]}
	for i := 0; i < 4; i++ {
		if mask>>uint(i)&1 == 1 {
			g = append(g, fs[i])
		}
	}
	if mask&1 == 0 {
		v.vs = 0
	}
	if mask&2 == 0 {
		v.prec = 0
	}
	if mask&4 == 0 {
		v.in = 0
	}
	if mask&8 == 0 {
		v.vv = 0
	}
	if zzv_Param("order") == 1 {
		for i, j := 0, len(g)-1; i < j; i, j = i+1, j-1 {
			g[i], g[j] = g[j], g[i]
		}
	}
	c, err := zzvHeader(zzvStream("SF", zzvStamp, zzvJoin(g), nil, 0))
	zzv_Assert(err == nil, "valid header rejected")
	zzvCheckVals(c, v)
}

// zzvC03Trailing ends the header with a label that has no text; the field
// before it carries a number the label must not inherit.
//
//gosym:job C03 label=0..7 prev=0..4
func zzvC03Trailing() {
	label := []string{"VV", "INT", "VS", "PR E", "LV", "GP", "BG", "MS"}[zzv_Param("label")]
	d := zzvDigits("d", 2)
	prev := []zzvField{
		{"SW", append([]byte("  "), d...)},
		{"CS", d},
		{"MS", append([]byte(" "), append(d, "<boo,ros>"...)...)},
		{"Q", append([]byte(" 1  1.0"), d...)},
		{"X", append([]byte("  "), d[0], 'x', d[1])},
	}[zzv_Param("prev")]
	gp := zzvField{"GP", []byte("   1x   1")}
	fs := []zzvField{gp, prev, {label, nil}}
	if label == "GP" || label == "BG" {
		fs = fs[1:]
	}
	c, err := zzvParse(zzvStream("RW", zzvStamp, zzvJoin(fs), []byte{9}, 0))
	if !zzvOK(c, err) {
		zzv_Assert(label != "MS", "unrelated trailing label rejected")
		return
	}
	zzv_Assert(label != "GP" && label != "BG", "dimensions inherited from another field")
	zzv_Assert(c.ForecastTime.Equal(c.CaptureTime) && c.Interval == 0 && c.Format == 0, "a label without text inherited another field")
	zzv_Assert(c.Dx == 1 && c.Dy == 1 && c.Data[0][0] == 9, "a label without text inherited another field")
}

// zzvC03Repeat checks that bytes of a text that look like other fields' texts
// never matter: the same numbers in unrelated fields change nothing.
//
//gosym:job C03 k=0..3
func zzvC03Same() {
	fs, v := zzvSymFields()
	d := zzvDigits("noise", 6)
	extra := []zzvField{
		{"VVI", d}, {"INTE", d[:4]}, {"GPX", append(append([]byte(nil), d[:2]...), 'x', d[2])}, {"LVL", append([]byte(" 1"), d[:5]...)},
	}[zzv_Param("k")]
	var g []zzvField
	g = append(g, extra)
	g = append(g, fs[:5]...)
	c, err := zzvHeader(zzvStream("RX", zzvStamp, zzvJoin(g), nil, 0))
	zzv_Assert(err == nil, "valid header rejected")
	zzvCheckVals(c, v)
	g = append(append([]zzvField(nil), fs[:5]...), extra)
	c2, err := zzvHeader(zzvStream("RX", zzvStamp, zzvJoin(g), nil, 0))
	zzv_Assert(err == nil, "valid header rejected")
	zzvCheckVals(c2, v)
}

// zzvC03Long has a long unrelated text between the fields.
//
//gosym:job C03 n=300,4060,4096,9000 at=0,2,5
func zzvC03Long() {
	fs, v := zzvSymFields()
	n, at := zzv_Param("n"), zzv_Param("at")
	text := zzvFill(n)
	for i := range text {
		if i%97 == 3 {
			text[i] = "-5: 0"[i%5]
		}
	}
	var g []zzvField
	g = append(g, fs[:at]...)
	g = append(g, zzvField{"MS", append([]byte("999<"), text...)})
	g = append(g, fs[at:5]...)
	c, err := zzvHeader(zzvStream("RX", zzvStamp, zzvJoin(g), nil, 0))
	zzv_Assert(err == nil, "valid header rejected")
	zzvCheckVals(c, v)
}

// zzvC03Foreign has characters beyond ASCII in an unrelated text: letters
// that are not capitals, other characters, and bytes that are no characters.
//
//gosym:job C03 at=0..5 k=0..5
func zzvC03Foreign() {
	fs, v := zzvSymFields()
	at := zzv_Param("at")
	b := zzv_Byte("txt")
	zzv_Assume(b >= 0x80)
	text := []string{"\u00fc", "\u00df 7", "\u65e5\u672c", "\U0001f327\ufe0f", "x" + string([]byte{b}) + " ", string([]byte{'0', 0xc3, ' ', b, '.', 0xff, 0xfe, '-'})}[zzv_Param("k")]
	var g []zzvField
	g = append(g, fs[:at]...)
	g = append(g, zzvField{"MS", []byte(" 9<" + text + ">")})
	g = append(g, fs[at:5]...)
	c, err := zzvHeader(zzvStream("RW", zzvStamp, zzvJoin(g), nil, 0))
	zzv_Assert(err == nil, "valid header rejected")
	zzvCheckVals(c, v)
	zzv_Assert(c.level == nil, "levels without level field")
}
