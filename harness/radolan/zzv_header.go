package radolan

import (
	"bufio"
	"bytes"
	"strconv"
	"time"
)

// zzvNum parses sign-less decimal text of digits only.
func zzvDec(b []byte) int {
	n := 0
	for _, c := range b {
		n = n*10 + int(c-'0')
	}
	return n
}

func zzvDigits(name string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = '0' + byte(zzv_Int(name, 0, 9))
	}
	return b
}

// zzvNumField is a number of width w: k blanks (0 <= k < w), an optional minus
// sign and digits; every character is symbolic.
func zzvNumField(name string, w int, neg bool) (txt []byte, val int) {
	blanks := zzv_Choose(name+"_blanks", w)
	sign := 0
	if neg && blanks < w-1 {
		sign = zzv_Choose(name+"_sign", 2)
	}
	for i := 0; i < blanks; i++ {
		txt = append(txt, ' ')
	}
	if sign == 1 {
		txt = append(txt, '-')
	}
	d := zzvDigits(name, w-blanks-sign)
	txt = append(txt, d...)
	val = zzvDec(d)
	if sign == 1 {
		val = -val
	}
	return
}

//gosym:bound C05 VV and INT present or absent, each 1..7 characters wide (8 for products other than W1..W4): blanks, optional minus sign, every digit; W1..W4 against four other products; arbitrary two-byte garbage as number text

// zzvC05 has arbitrary VV and INT numbers.
//
//gosym:job C05 prod=0..7 vv=0,3 int=0,4
//gosym:job C05 prod=0,4 vv=1,2,4 int=1,2,3
//gosym:job C05 prod=1,5 vv=0,6,7 int=0,5,6
//gosym:job C05 prod=4,5 vv=0 int=8
//gosym:job C05 prod=4 vv=8 int=0
//gosym:job C05 thorough prod=0..7 vv=0..5 int=0..5
func zzvC05() {
	prods := []string{"W1", "W2", "W3", "W4", "RW", "WX", "W5", "SF"}
	prod := prods[zzv_Param("prod")]
	f := zzvGP(1, 1)
	vw, iw := zzv_Param("vv"), zzv_Param("int")
	vv, in := 0, 0
	if vw > 0 {
		t, v := zzvNumField("vv", vw, true)
		f += "VV" + string(t)
		vv = v
	}
	if iw > 0 {
		t, v := zzvNumField("int", iw, true)
		f += "INT" + string(t)
		in = v
	}
	c, err := zzvParse(zzvStream(prod, zzvStamp, f, []byte{1}, 0))
	zzv_Assert(zzvOK(c, err), "valid VV/INT fields rejected")
	d := c.ForecastTime.Sub(c.CaptureTime)
	zzv_Assert(d == time.Duration(vv)*time.Minute, "forecast time is not capture time plus VV minutes")
	if vw == 0 {
		zzv_Assert(c.ForecastTime.Equal(c.CaptureTime), "forecast time without VV")
	}
	want := time.Duration(in) * time.Minute
	if zzv_Param("prod") < 4 {
		want = want * 10
	}
	zzv_Assert(c.Interval == want, "interval wrong")
	zzv_Observe("vv", int(d))
	zzv_Observe("int", int(c.Interval))
}

// zzvC05Bad puts two arbitrary characters (no capital letters) where a number belongs.
//
//gosym:job C05 field=0,1
func zzvC05Bad() {
	b := zzvBytes("txt", 2)
	for _, c := range b {
		zzv_Assume(c != 3 && (c < 'A' || c > 'Z') && c < 128)
	}
	name := "VV"
	if zzv_Param("field") == 1 {
		name = "INT"
	}
	f := name + string(b) + zzvGP(1, 1)
	c, err := zzvParse(zzvStream("RW", zzvStamp, f, []byte{1}, 0))
	blank := func(c byte) bool { return c == ' ' || c == '\t' || c == '\v' || c == '\f' || c == '\r' }
	num := zzvDig(b[0]) || (b[0] == '-' || b[0] == '+' || blank(b[0]) || b[0] == '\n') && zzvDig(b[1])
	if !num {
		zzv_Assert(err != nil && err != ErrUnknownUnit, "unparsable number accepted")
		return
	}
	zzv_Observe("ok", zzvOK(c, err))
	zzv_Observe("f", int(c.ForecastTime.Sub(c.CaptureTime)))
}

//gosym:bound C06 GP 'AxB' with A and B of 1..4 characters (blanks, optional minus sign, digits: every value -999..9999) with and without BG fields around it, for local and non-local products; BG with six arbitrary digits; GP/BG text of up to four arbitrary characters without a digit; neither field with every product label of two bytes

func zzvHeader(buf []byte) (*Composite, error) {
	c := &Composite{}
	err := c.parseHeader(bufio.NewReader(bytes.NewReader(buf)))
	return c, err
}

// zzvC06GP has symbolic GP dimensions.
//
//gosym:job C06 a=1..4 b=1,4 bg=0,1 prod=0
//gosym:job C06 a=3 b=2,3 bg=0,1 prod=0..3
//gosym:job C06 thorough a=1..5 b=1..5 bg=0,1 prod=0..3
func zzvC06GP() {
	ta, va := zzvNumField("a", zzv_Param("a"), true)
	tb, vb := zzvNumField("b", zzv_Param("b"), true)
	zzv_Assume(va <= 9999 && vb <= 9999)
	f := "GP" + string(ta) + "x" + string(tb)
	if zzv_Param("bg") == 1 {
		f = "BG007009" + f + "BG005005"
	}
	prod := []string{"RW", "PX", "PZ", "QQ"}[zzv_Param("prod")]
	if va < 1 || vb < 1 {
		// as many data bytes as the product of the numbers suggests
		n := 0
		if va >= -2 && va <= 2 && vb >= -2 && vb <= 2 {
			if n = zzv_Concretize(va) * zzv_Concretize(vb); n < 0 {
				n = 0
			}
		}
		_, err := zzvParse(zzvStream(prod, zzvStamp, f, make([]byte, n), 0))
		zzv_Assert(err != nil && err != ErrUnknownUnit, "non-positive dimension accepted")
		return
	}
	c, err := zzvHeader(zzvStream(prod, zzvStamp, f, nil, 0))
	zzv_Reach("accepted")
	zzv_Assert(err == nil, "valid GP dimensions rejected")
	zzv_Assert(c.Dy == va && c.Dx == vb && c.Py == va && c.Px == vb, "dimensions differ from GP field")
	zzv_Observe("dy", c.Dy)
	zzv_Observe("dx", c.Dx)
}

// zzvC06Small parses complete composites of symbolic small dimensions.
//
//gosym:job C06 field=0,1 bytes=1,2
func zzvC06Small() {
	a := zzv_Byte("a")
	b := zzv_Byte("b")
	zzv_Assume(a >= '0' && a <= '3' && b >= '0' && b <= '3')
	va, vb := zzv_Concretize(int(a-'0')), zzv_Concretize(int(b-'0'))
	f := "GP   " + string([]byte{a}) + "x   " + string([]byte{b})
	if zzv_Param("field") == 1 {
		f = "BG00" + string([]byte{a}) + "00" + string([]byte{b})
	}
	c, err := zzvParse(zzvStream("RW", zzvStamp, f, make([]byte, va*vb*zzv_Param("bytes")), 0))
	if va < 1 || vb < 1 {
		zzv_Assert(err != nil && err != ErrUnknownUnit, "zero dimension accepted")
		return
	}
	zzv_Reach("accepted")
	zzv_Assert(zzvOK(c, err), "valid dimensions rejected")
	zzv_Assert(c.Dy == va && c.Dx == vb && c.Py == va && c.Px == vb && c.Dz == 1, "dimensions differ from header field")
	zzv_Assert(len(c.Data) == va && len(c.Data[0]) == vb, "data has other dimensions than the header field")
}

// zzvC06BG has six arbitrary digits in the BG field.
//
//gosym:job C06 prod=0..3
func zzvC06BG() {
	d := zzvDigits("d", 6)
	va, vb := zzvDec(d[:3]), zzvDec(d[3:])
	prod := []string{"PG", "PX", "PZ", "QQ"}[zzv_Param("prod")]
	s := zzvStream(prod, zzvStamp, "BG"+string(d), nil, 0)
	if va < 1 || vb < 1 {
		_, err := zzvParse(s)
		zzv_Assert(err != nil && err != ErrUnknownUnit, "zero BG dimension accepted")
		return
	}
	c, err := zzvHeader(s)
	zzv_Reach("accepted")
	zzv_Assert(err == nil, "valid BG dimensions rejected")
	zzv_Assert(c.Dy == va && c.Dx == vb && c.Py == va && c.Px == vb, "dimensions differ from BG field")
}

// zzvC06Bad has dimension fields without any digit.
//
//gosym:job C06 field=0,1 n=0..4 prod=0,1
func zzvC06Bad() {
	t := zzvBytes("txt", zzv_Param("n"))
	for _, b := range t {
		zzv_Assume(b != 3 && (b < 'A' || b > 'Z') && b < 128 && !zzvDig(b))
	}
	name := "GP"
	if zzv_Param("field") == 1 {
		name = "BG"
	}
	prod := []string{"RW", "PX"}[zzv_Param("prod")]
	_, err := zzvParse(zzvStream(prod, zzvStamp, "VS 3"+name+string(t), []byte{1}, 0))
	zzv_Assert(err != nil && err != ErrUnknownUnit, "dimension field without numbers accepted")
}

type zzvSpec struct {
	p  string
	py int
	r  float64
}

var zzvLocal = []zzvSpec{
	{"OL", 224, 2}, {"OX", 224, 1}, {"PD", 224, 1}, {"PE", 224, 2}, {"PF", 224, 1},
	{"PH", 224, 1}, {"PL", 224, 2}, {"PM", 224, 2}, {"PR", 224, 1}, {"PU", 2400, 1},
	{"PV", 224, 1}, {"PX", 224, 1}, {"PY", 224, 1}, {"PZ", 2400, 2},
}

// zzvC06Far has dimensions that are small ones in fewer bits: they are
// rejected or read as they stand.
//
//gosym:job C06
func zzvC06Far() {
	far := []string{"257", "258", "65537", "65538", "4294967297", "4294967298", "18446744073709551617", "18446744073709551618", "-65535", "-4294967295", "1000000001"}
	a, b := "1", far[zzv_Choose("far", len(far))]
	if zzv_Bool("swap") {
		a, b = b, a
	}
	data := make([]byte, 520)
	n := []int{1, 2, 257, 258}[zzv_Choose("n", 4)]
	for _, f := range []string{"GP" + a + "x" + b, "GP " + a + "x " + b} {
		c, err := zzvParse(zzvStream("RX", zzvStamp, f, data[:n], 0))
		if err == nil {
			zzv_Assert(a[0] != '-' && b[0] != '-' && a == strconv.Itoa(c.Dy) && b == strconv.Itoa(c.Dx), "other dimensions than declared")
			zzv_Reach("read")
		}
	}
}

// zzvC06Local has an arbitrary product label and no dimension field.
//
//gosym:job C06 samples=20
func zzvC06Local() {
	p := string(zzvBytes("prod", 2))
	for i := 0; i < 2; i++ {
		zzv_Assume(p[i] != 3)
	}
	py := 0
	for _, s := range zzvLocal {
		if p == s.p {
			py = s.py
		}
	}
	s := zzvStream(p, zzvStamp, "", nil, 0)
	if py == 0 {
		_, err := zzvParse(s)
		zzv_Assert(err != nil && err != ErrUnknownUnit, "composite without dimension information accepted")
		return
	}
	zzv_Reach("local")
	c, err := zzvHeader(s)
	zzv_Assert(err == nil, "local product rejected")
	zzv_Assert(c.Px == 200 && c.Py == py && c.Dx == 200 && c.Dy == 200, "wrong dimensions of a local product")
	zzv_Observe("py", c.Py)
}
