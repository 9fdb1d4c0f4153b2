package radolan

// zzvUse exercises everything a caller can do with a result; nothing of it may
// panic, and the result must have the shape that C02 describes.
func zzvUse(c *Composite, err error) {
	zzv_Assert(c != nil || err != nil, "neither composite nor error")
	if err != nil && err != ErrUnknownUnit {
		return
	}
	zzv_Assert(c != nil, "no composite without error")
	zzvShape(c)
	zzv_Assert(c.DataUnit.String() != "", "unit has no name")
	_ = c.At(0, 0)
	_ = c.At(c.Dx, c.Dy)
	_ = c.AtZ(c.Dx-1, c.Dy-1, c.Dz-1)
	_ = c.AtZ(-1, 0, c.Dz)
}

// zzvShape asserts what C02 says about dimensions.
func zzvShape(c *Composite) {
	zzv_Assert(c.Dx > 0 && c.Dy > 0 && c.Dz > 0 && c.Px > 0 && c.Py > 0, "dimension not positive")
	zzv_Assert(len(c.PlainData) == c.Py, "number of plain rows differs from plain height")
	for _, r := range c.PlainData {
		zzv_Assert(len(r) == c.Px, "plain row differs from plain width")
	}
	zzv_Assert(len(c.DataZ) == c.Dz, "number of layers differs from layer count")
	for _, l := range c.DataZ {
		zzv_Assert(len(l) == c.Dy, "number of layer rows differs from height")
		for _, r := range l {
			zzv_Assert(len(r) >= c.Dx, "layer row shorter than width")
		}
	}
	zzv_Assert(len(c.Data) == c.Dy && len(c.DataZ[0]) == c.Dy && &c.Data[0] == &c.DataZ[0][0], "2D data is not layer 0")
}

type zzvTmpl struct {
	prod, fields string
	data         []byte
}

// zzvTmpls are headers of every kind; windows of arbitrary bytes slide over them.
var zzvTmpls = []zzvTmpl{
	{"RW", "VS 3PR E-01GP   2x   2", []byte{250, 250, 250, 250}},
	{"FX", "VV 005INT   5GP   1x   2MS 66<boo,ros>", []byte{1, 0x20, 3, 0x20}},
	{"PG", "LV 2  1.0 19.0CS0BG002003", []byte{1, 17, 0x11, 0x12, '\n', 2, 16, 0x13, '\n'}},
	{"PX", "LV 2-31.5 55.0CS0MX 1", []byte{1, 17, 0x11, 0x12, '\n', 2, 16, 0x13, '\n'}},
}

func (t zzvTmpl) stream() []byte { return zzvStream(t.prod, zzvStamp, t.fields, t.data, 0) }

//gosym:bound C01 four header templates (single-byte, 16-bit, run-length, local product) with two adjacent bytes (thorough: three) arbitrary, at every position of the header; every numeric field with up to three arbitrary bytes, or with an arbitrary byte followed by up to 25 digits, the first and last of them arbitrary and the others all 0 or 9, as its value; data sections of up to ten arbitrary bytes for composites up to 3x3 of each encoding; streams of up to 21 arbitrary bytes; allocations up to 12 elements explored, larger ones only up to their failure checks

// zzvC01Window has adjacent arbitrary bytes at a position of a template header.
//
//gosym:job C01 make=12 wide=0 tm=0..2 pos=0..56
//gosym:job C01 make=400 wide=0 tm=3 pos=0..40
//gosym:job C01 make=12 thorough wide=1 tm=0..2 pos=0..56
//gosym:job C01 make=400 thorough wide=1 tm=3 pos=0..40
func zzvC01Window() {
	t := zzvTmpls[zzv_Param("tm")]
	s := t.stream()
	end := len(s) - len(t.data)
	pos := zzv_Param("pos")
	w := 2 + zzv_Param("wide")
	for i := pos; i < pos+w && i < end; i++ {
		s[i] = zzv_Byte("b")
	}
	zzvUse(zzvParse(s))
}

// zzvC01Field has arbitrary bytes as a field's value.
//
//gosym:job C01 make=12 f=0..11 n=0..3
//gosym:job C01 make=12 thorough f=0..11 n=4
func zzvC01Field() {
	zzvUse(zzvParse(zzvWithField(zzv_Param("f"), zzvBytes("b", zzv_Param("n")))))
}

// zzvC01Digits has a long number as a field's value.
//
//gosym:job C01 make=12 f=0..11 n=1,9,10,18,19,20,25 fill=0,9
func zzvC01Digits() {
	n := zzv_Param("n")
	v := make([]byte, n+1)
	for i := range v {
		v[i] = byte('0' + zzv_Param("fill"))
	}
	d := zzvDigits("d", 2)
	v[0], v[1], v[n] = zzv_Byte("sign"), d[0], d[1]
	zzvUse(zzvParse(zzvWithField(zzv_Param("f"), v)))
}

// zzvWithField makes a stream one of whose fields has the given value.
func zzvWithField(f int, v []byte) []byte {
	tm := zzvTmpls[[]int{0, 1, 1, 1, 0, 0, 2, 2, 3, 2, 1, 0}[f]]
	key := []string{"BY", "VV", "INT", "GP", "GP", "E", "LV", "BG", "LV", "CS", "MS", "VS"}[f]
	head := "BY" + zzvPad(len(tm.data)+50, 7) + tm.fields
	if key == "E" {
		head = "BY" + zzvPad(len(tm.data)+50, 7) + "GP   2x   2PR E-01"
	}
	// the value of the key ends at the next capital letter
	i := 0
	for head[i:i+len(key)] != key {
		i++
	}
	i += len(key)
	j := i
	for j < len(head) && (head[j] < 'A' || head[j] > 'Z') {
		j++
	}
	b := []byte(tm.prod + zzvStamp + head[:i])
	b = append(b, v...)
	b = append(b, head[j:]...)
	b = append(b, 3)
	return append(b, tm.data...)
}

// zzvC01Data has an arbitrary data section.
//
//gosym:job C01 make=12 enc=0,1 rows=1..3 cols=1..3 n=0
//gosym:job C01 make=12 enc=2 rows=1..3 cols=1,2 n=0..7
//gosym:job C01 make=12 thorough enc=2 rows=1..3 cols=1..3 n=8..10
func zzvC01Data() {
	rows, cols := zzv_Param("rows"), zzv_Param("cols")
	enc, n := zzv_Param("enc"), zzv_Param("n")
	prod, fields := "RW", "PR E-01"+zzvGP(rows, cols)
	switch enc {
	case 0:
		n = rows * cols
	case 1:
		n = 2 * rows * cols
	case 2:
		prod, fields = "PG", "LV 2  1.0 19.0BG"+zzvZero(rows)+zzvZero(cols)
	}
	zzvUse(zzvParse(zzvStream(prod, zzvStamp, fields, zzvBytes("data", n), 0)))
}

// zzvC01Short reads short streams of arbitrary bytes.
//
//gosym:job C01 make=12 n=0..21
func zzvC01Short() {
	zzvUse(zzvParse(zzvBytes("b", zzv_Param("n"))))
}

func zzvZero(n int) string {
	return string([]byte{byte('0' + n/100), byte('0' + n/10%10), byte('0' + n%10)})
}
