package radolan

import "io"

//gosym:bound C31 two streams of 11 kinds each with arbitrary data bytes in every order (the large kinds in selected pairs); two streams that differ in one header field with arbitrary digits (20 fields); two streams with arbitrary interval, forecast, precision and data at once for eight products, one of them unknown; local products; failing streams (cut at every position, one arbitrary header byte, 19 kinds of rejection with arbitrary values in their other fields) in between; readings nested in each other at every delivery; dummies and parsed composites of nine shapes and formats projected at arbitrary coordinates; archives; conversions at every 32-bit reflectivity; the caller overwriting everything public in its results
//gosym:assume C31 the result in a fresh process is the one computed on the package variables as they are after initialisation (replayed in a new process)

// zzvRes is the outcome of an operation.
type zzvRes struct {
	Err int // 0 none, 1 unknown unit, 2 other
	C   *Composite
	All []*Composite
	F   []float64
}

// zzvNativeFresh computes g in a new process.
var zzvNativeFresh func(g func() zzvRes) zzvRes

// zzvFresh computes g as if it were the first use of the package.  It must be
// the first use in the harness.
func zzvFresh(g func() zzvRes) (r zzvRes) {
	if !zzv_Symbolic() {
		return zzvNativeFresh(g)
	}
	zzv_Fresh(func() { r = g() })
	return
}

func zzvCopyRows(rows [][]float32) (r [][]float32) {
	for _, row := range rows {
		r = append(r, append([]float32(nil), row...))
	}
	return
}

// zzvCopy copies everything public.
func zzvCopy(c *Composite) *Composite {
	n := &Composite{Product: c.Product, CaptureTime: c.CaptureTime, ForecastTime: c.ForecastTime, Interval: c.Interval,
		DataUnit: c.DataUnit, Px: c.Px, Py: c.Py, Dx: c.Dx, Dy: c.Dy, Dz: c.Dz, Rx: c.Rx, Ry: c.Ry, HasProjection: c.HasProjection, Format: c.Format}
	n.PlainData, n.Data = zzvCopyRows(c.PlainData), zzvCopyRows(c.Data)
	for _, l := range c.DataZ {
		n.DataZ = append(n.DataZ, zzvCopyRows(l))
	}
	return n
}

// zzvOutcome is the copied result of a call.
func zzvOutcome(c *Composite, err error) (r zzvRes) {
	switch {
	case err == nil:
	case err == ErrUnknownUnit:
		r.Err = 1
	default:
		r.Err = 2
		return
	}
	r.C = zzvCopy(c)
	return
}

func zzvSameRes(a, b zzvRes) {
	zzv_Assert(a.Err == b.Err, "the outcome depends on earlier calls")
	if a.C != nil {
		zzvEqual(a.C, b.C)
	}
	zzv_Assert(len(a.All) == len(b.All), "the number of composites depends on earlier calls")
	for i := range a.All {
		zzvEqual(a.All[i], b.All[i])
	}
	for i := range a.F {
		zzvSame64(a.F[i], b.F[i], "a number depends on earlier calls")
	}
}

// zzvSpoil overwrites everything a caller can reach.
func zzvSpoil(c *Composite) {
	if c == nil {
		return
	}
	wipe := func(rows [][]float32) {
		for y := range rows {
			for x := range rows[y] {
				if x < 3 {
					rows[y][x] = -77
				}
			}
			rows[y] = append(rows[y], -77)
			rows[y] = nil
		}
	}
	wipe(c.PlainData)
	wipe(c.Data)
	for z, l := range c.DataZ {
		wipe(l)
		c.DataZ[z] = append(l, nil)
	}
	c.Dx, c.Dy, c.Dz, c.Px, c.Py = -1, 7, 0, 9, -9
	c.Rx, c.Ry, c.HasProjection, c.Format = 3, 4, !c.HasProjection, 77
	c.Product, c.DataUnit, c.Interval = "??", 9, -5
	c.PlainData, c.Data, c.DataZ = nil, nil, nil
}

// zzvSequence reads b after a, and both again; nothing may have changed.
func zzvSequence(a, b []byte) {
	want := zzvFresh(func() zzvRes { return zzvOutcome(zzvParse(b)) })
	ca, ea := zzvParse(a)
	ra := zzvOutcome(ca, ea)
	cb, eb := zzvParse(b)
	zzvSameRes(zzvOutcome(cb, eb), want)
	if ra.C != nil {
		zzvSameRes(zzvOutcome(ca, ea), ra)
		zzvSpoil(ca)
		if want.C != nil {
			zzvSameRes(zzvOutcome(cb, eb), want)
		}
	}
	zzvSameRes(zzvOutcome(zzvParse(a)), ra)
	if want.C != nil {
		zzvSameRes(zzvOutcome(cb, eb), want)
		zzvSpoil(cb)
	}
	zzvSameRes(zzvOutcome(zzvParse(b)), want)
	zzvSameRes(zzvOutcome(zzvParse(a)), ra)
}

// zzvC31 reads two streams of any kinds.
//
//gosym:job C31 a=0..5,10 b=0..5,10
//gosym:job C31 a=6 b=0,6,7
//gosym:job C31 a=7 b=2,6,7
//gosym:job C31 a=9 b=8,9
//gosym:job C31 a=0,2 b=6
//gosym:job C31 thorough a=0..10 b=0..10
func zzvC31() {
	a, _ := zzvSample(zzv_Param("a"))
	b, _ := zzvSample(zzv_Param("b"))
	zzvSequence(a, b)
}

// zzvFieldStream has a header of many fields; what k says is arbitrary, unless
// name is empty.
func zzvFieldStream(k int, name string) []byte {
	digit := func(i int, d byte, nonzero bool) byte {
		if i != k || name == "" {
			return d
		}
		b := zzvDigits(name, 1)[0]
		zzv_Assume(!nonzero || b != '0')
		return b
	}
	stamp := []byte(zzvStamp)
	for i, p := range []int{1, 3, 5, 12, 14} { // day, hour, minute, month, year
		stamp[p] = digit(i, stamp[p], i == 3)
	}
	zzv_Assume(stamp[1] <= '8')
	rows, cols := int(digit(5, '2', true)-'0'), int(digit(6, '3', true)-'0')
	rows, cols = zzv_Concretize(rows), zzv_Concretize(cols)
	gp := zzvGP(rows, cols)
	if k == 7 && (name == "" || zzv_Bool(name)) {
		gp = "BG" + "00" + zzvPad(rows, 1) + "00" + zzvPad(cols, 1)
	}
	f := "VS  " + string([]byte{digit(8, '3', false)}) + "INT  " + string([]byte{digit(9, '6', false)}) + "0VV 0" + string([]byte{digit(10, '1', false)}) + "5"
	f += "PR E-0" + string([]byte{digit(11, '1', false)}) + gp
	prod := []byte("RW")
	if k == 12 && name != "" {
		prod[1] = zzv_Byte(name)
		zzv_Assume(prod[1] >= 'A' && prod[1] <= 'Z')
	}
	enc := 1
	if k == 13 && name != "" {
		enc = 1 + zzv_Choose(name, 3)
	}
	if k >= 14 {
		enc = 3
	}
	if enc < 3 {
		data := make([]byte, rows*cols*enc)
		for i := range data {
			data[i] = byte(i % 7)
		}
		data[0] = 77
		return zzvStream(string(prod), string(stamp), f, data, 0)
	}
	lv := " " + string([]byte{digit(14, '1', false)}) + "." + string([]byte{digit(15, '0', false)}) + "  3" + string([]byte{digit(16, '1', false)}) + ".5 99.0"
	lv = " " + lv
	n := 3
	if k == 17 && name != "" {
		n = 1 + zzv_Choose(name, 4)
		lv = "  1.0  3.5 22.0 99.0"[:5*n]
	}
	f = "LV" + zzvPad(n, 2) + lv + f
	if k == 18 && name != "" {
		f += []string{"MS  3abc", "MX 4", "SW   2.13.1"}[zzv_Choose(name, 3)]
	}
	var data []byte
	for y := 0; y < rows; y++ {
		data = append(data, byte(y+1), 16, 0x10, 0x10, 10)
		if k == 19 && name != "" {
			v := zzv_Byte(name)
			zzv_Assume(v < 3)
			data[len(data)-2] = 0x10 | v
		}
	}
	return zzvStream("PG", string(stamp), f, data, 0)
}

// zzvC31Field reads two streams that differ in a single field.
//
//gosym:job C31 field=0..19 order=0..2
func zzvC31Field() {
	k := zzv_Param("field")
	switch zzv_Param("order") {
	case 0:
		zzvSequence(zzvFieldStream(k, ""), zzvFieldStream(k, "b"))
	case 1:
		zzvSequence(zzvFieldStream(k, "a"), zzvFieldStream(k, ""))
	case 2: // in both encodings, two fields
		zzvSequence(zzvFieldStream(k%12, "a"), zzvFieldStream((k+5)%20, "b"))
	}
}

// zzvHeadStream has many arbitrary fields at once.
func zzvHeadStream(prod int, p string) []byte {
	p2 := []string{"RX", "RW", "SF", "EZ", "W4", "QQ", "PG", "EX"}[prod]
	f := "VS 3"
	f += "INT" + string(zzvDigits(p+"int", 4)) + "VV" + string(zzvDigits(p+"vv", 3)) + "PR E-0" + string(zzvDigits(p+"prec", 1)) + zzvGP(1, 1)
	if p2 == "PG" {
		return zzvStream(p2, zzvStamp, "LV 2  1.0 20.5"+f, []byte{1, 16, 0x10, 10}, 0)
	}
	return zzvStream(p2, zzvStamp, f, []byte{zzv_Byte(p + "d"), 0x01}[:2-prod%2], 0)
}

// zzvC31Header reads streams with many fields that differ.
//
//gosym:job C31 a=0..7 b=0..7
func zzvC31Header() {
	a, b := zzvHeadStream(zzv_Param("a"), "a"), zzvHeadStream(zzv_Param("b"), "b")
	want := zzvFresh(func() zzvRes { return zzvOutcome(zzvParse(b)) })
	ca, ea := zzvParse(a)
	ra := zzvOutcome(ca, ea)
	cb, eb := zzvParse(b)
	zzvSameRes(zzvOutcome(cb, eb), want)
	zzvSameRes(zzvOutcome(ca, ea), ra)
}

// zzvC31Local reads local products after each other.
//
//gosym:job C31 a=0,3,11 b=5 enc=0
//gosym:job C31 a=0 b=5 enc=2
//gosym:job C31 thorough a=0..13 b=0,5,11,13 enc=0..2
func zzvC31Local() {
	enc := zzv_Param("enc")
	a, _ := zzvLocalStream(zzvLocal[zzv_Param("a")].p, enc)
	b, _ := zzvLocalStream(zzvLocal[zzv_Param("b")].p, enc)
	zzvSequence(a, b)
}

// zzvC31Cut has a cut stream in between.
//
//gosym:job C31 kind=0..5 bad=0..5
func zzvC31Cut() {
	b, _ := zzvSample(zzv_Param("kind"))
	bad, _ := zzvSample(zzv_Param("bad"))
	want := zzvFresh(func() zzvRes { return zzvOutcome(zzvParse(b)) })
	for n := 0; n < len(bad); n++ {
		_, err := zzvParse(bad[:n:n])
		zzv_Assert(err != nil, "cut stream accepted")
	}
	cb, eb := zzvParse(b)
	zzvSameRes(zzvOutcome(cb, eb), want)
	for n := 0; n < len(bad); n++ {
		zzvParse(bad[:n:n])
	}
	zzvSameRes(zzvOutcome(cb, eb), want)
}

// zzvC31Bad has a stream with an arbitrary byte in its header in between.
//
//gosym:job C31 make=12 kind=0..2 tm=0..2 part=0..5
func zzvC31Bad() {
	b, _ := zzvSample(zzv_Param("kind"))
	t := zzvTmpls[zzv_Param("tm")]
	bad := t.stream()
	end := len(bad) - len(t.data)
	want := zzvFresh(func() zzvRes { return zzvOutcome(zzvParse(b)) })
	x := zzv_Byte("b")
	n := (end + 5) / 6
	for i := n * zzv_Param("part"); i < n*(zzv_Param("part")+1) && i < end; i++ {
		s := append([]byte(nil), bad...)
		s[i] = x
		zzvParse(s)
	}
	zzvSameRes(zzvOutcome(zzvParse(b)), want)
}

// zzvRejected is a stream of many arbitrary fields that is rejected in one of
// many ways.
func zzvRejected(how int) []byte {
	d := func(n int) string { return string(zzvDigits("r", n)) }
	stamp, prod := zzvStamp, "PG"
	vs, in, vv, prec, dim := "VS 3", "INT"+d(4), "VV"+d(3), "PR E-0"+d(1), zzvGP(1, 1)
	lv := "LV 2  1.0 2" + d(1) + ".5"
	data := []byte{1, 16, 0x10, 10}
	switch how {
	case 0: // no such day
		stamp = "99" + stamp[2:]
	case 1:
		vv = "VV xyz"
	case 2:
		in = "INT x"
	case 3:
		dim = "GP 1y   1"
	case 4:
		dim = "BG0y0001"
	case 5:
		prod, dim = "QQ", ""
	case 6:
		dim = "GP   0x   1"
	case 7:
		prec = "PR E x"
	case 8:
		lv = "LVxx  1.0"
	case 9:
		lv = "LV 3  1.0  2.0"
	case 10:
		lv = "LV 2  1.0  x.0"
	case 11:
		vs = "VS x"
	case 12: // data missing
		data = nil
	case 13: // too many pixels in a row
		data = []byte{1, 16, 0xf0, 0xf0, 10}
	case 14: // no such size
		lv, data = "", make([]byte, 5)
	case 15: // single bytes missing
		lv, data, dim = "", make([]byte, 6), zzvGP(2, 3)
		s := zzvStream("RX", stamp, vs+in+vv+prec+dim, data, 0)
		return s[:len(s)-1]
	case 16: // 16 bit values missing
		lv, data, dim = "", make([]byte, 12), zzvGP(2, 3)
		s := zzvStream("SF", stamp, vs+in+vv+prec+dim, data, 0)
		return s[:len(s)-1]
	case 17: // the field is too short
		lv = "LV1"
	case 18: // the header is not finished
		s := zzvStream(prod, stamp, dim+vs+in+vv+prec+lv, nil, 0)
		return s[:len(s)-1]
	}
	if how%2 == 0 {
		return zzvStream(prod, stamp, lv+vs+in+vv+prec+dim, data, 0)
	}
	return zzvStream(prod, stamp, dim+prec+vv+in+vs+lv, data, 0)
}

// zzvPlain is a stream with few fields.
func zzvPlain(k int) []byte {
	switch k {
	case 0:
		return zzvStream("RX", zzvStamp, zzvGP(1, 2), zzvBytes("p", 2), 0)
	case 1:
		return zzvStream("SF", zzvStamp, zzvGP(2, 1), zzvBytes("p", 4), 0)
	case 2:
		return zzvStream("PG", zzvStamp, "LV 1 33.5BG001002", []byte{1, 16, 0x10, 10}, 0)
	case 3: // rejected itself: no dimensions
		return zzvStream("QR", zzvStamp, "VS 3", zzvBytes("p", 1), 0)
	case 4: // rejected itself: no levels, no such size
		return zzvStream("PG", zzvStamp, zzvGP(1, 1), []byte{1, 16, 0x10, 10}, 0)
	case 5:
		return zzvStream("W3", zzvStamp, "BG001001INT 10", zzvBytes("p", 1), 0)
	}
	return zzvStream("FX", zzvStamp, "VS 5VV 010"+zzvGP(1, 1), zzvBytes("p", 2), 0)
}

// zzvC31Rejected reads a stream after a rejected one.
//
//gosym:job C31 how=0..18 b=0..6
func zzvC31Rejected() {
	bad, b := zzvRejected(zzv_Param("how")), zzvPlain(zzv_Param("b"))
	want := zzvFresh(func() zzvRes { return zzvOutcome(zzvParse(b)) })
	_, err := zzvParse(bad)
	zzv_Assert(zzvErr(err), "invalid stream accepted")
	zzvSameRes(zzvOutcome(zzvParse(b)), want)
	zzvParse(bad)
	zzvParse(bad)
	zzvSameRes(zzvOutcome(zzvParse(b)), want)
	zzvSameRes(zzvOutcome(zzvParse(b)), want)
}

// zzvNest reads another stream in the middle of its own.
type zzvNest struct {
	zzvReader
	at    int
	inner func()
}

func (r *zzvNest) Read(p []byte) (int, error) {
	if r.n == r.at && r.inner != nil {
		f := r.inner
		r.inner = nil
		f()
	}
	return r.zzvReader.Read(p)
}

// zzvC31Nested reads one stream during the other.
//
//gosym:job C31 a=0..5 b=0,1,2,4 size=7,31
func zzvC31Nested() {
	a, _ := zzvSample(zzv_Param("a"))
	b, _ := zzvSample(zzv_Param("b"))
	want := zzvFresh(func() zzvRes { return zzvOutcome(zzvParse(b)) })
	ra := zzvOutcome(zzvParse(a))
	size := zzv_Param("size")
	for at := 0; at*size <= len(b); at++ {
		r := &zzvNest{zzvReader: zzvReader{b: b, sizes: []int{size}, err: io.EOF}, at: at}
		called := false
		r.inner = func() {
			called = true
			ca, ea := zzvParse(a)
			zzvSameRes(zzvOutcome(ca, ea), ra)
			zzvSpoil(ca)
		}
		zzvSameRes(zzvOutcome(NewComposite(r)), want)
		_ = called
	}
	zzv_Reach("nested")
}

// zzvShapeOf is a composite of shape k, a dummy or parsed.
func zzvShapeOf(k int, parsed bool) *Composite {
	d := [][3]int{{900, 900, 3}, {450, 450, 3}, {920, 920, 3}, {1100, 1200, 3}, {1100, 1200, 5}, {1400, 1500, 3}, {7, 3, 3}, {900, 900, 5}, {225, 225, 0}, {115, 115, 4}}[k]
	switch {
	case d[0] == 1100:
		d[0], d[1] = 275, 300
	case d[0] == 1400:
		d[0], d[1] = 350, 375
	}
	if !parsed {
		return NewDummy("RX", d[2], d[0], d[1])
	}
	if d[0] > 400 {
		d[0], d[1] = d[0]/4, d[1]/4
		if d[0] == 230 {
			d[0], d[1] = 115, 115
		}
	}
	c, err := zzvParse(zzvStream("RX", zzvStamp, "VS "+zzvPad(d[2], 2)+zzvGP(d[1], d[0]), make([]byte, d[0]*d[1]), 0))
	zzv_Assert(err == nil, "valid stream rejected")
	return c
}

// zzvC31Project projects with different composites.
//
//gosym:job C31 a=0..9 b=0..7 parsed=0
//gosym:job C31 a=1,3,4 b=8,9,3,4 parsed=1
func zzvC31Project() {
	n, e := zzv_AnyF64("north"), zzv_AnyF64("east")
	n2, e2 := zzv_AnyF64("north"), zzv_AnyF64("east")
	ka, kb := zzv_Param("a"), zzv_Param("b")
	parsed := zzv_Param("parsed") == 1
	want := zzvFresh(func() zzvRes {
		c := zzvShapeOf(kb, parsed)
		x, y := c.Project(n, e)
		r := zzvRes{F: []float64{x, y, c.Rx, c.Ry}}
		if c.HasProjection {
			r.Err = 1
		}
		return r
	})
	a := zzvShapeOf(ka, false)
	before := zzvCopy(a)
	ax, ay := a.Project(n2, e2)
	zzvEqual(a, before)
	b := zzvShapeOf(kb, parsed)
	b.Project(n2, e2)
	a.Project(n, e)
	x, y := b.Project(n, e)
	r := zzvRes{F: []float64{x, y, b.Rx, b.Ry}}
	if b.HasProjection {
		r.Err = 1
	}
	zzvSameRes(r, want)
	ax2, ay2 := a.Project(n2, e2)
	zzvSame64(ax, ax2, "projecting depends on earlier calls")
	zzvSame64(ay, ay2, "projecting depends on earlier calls")
	zzvEqual(a, before)
}

// zzvC31Archive reads archives and single composites.
//
//gosym:job C31 first=0..3
func zzvC31Archive() {
	var t zzvTar
	for i := 0; i < 3; i++ {
		t.add("e"+zzvPad(i, 1), zzvEntry([]int{0, 2, 3}[i], i+1, zzvDigits("vv", 3), '0'))
	}
	t.close()
	other := zzvEntry(zzv_Param("first"), 9, zzvDigits("vv", 3), '1')
	read := func() ([]*Composite, zzvRes) {
		cs, err := NewComposites(t.reader(len(t.b), io.EOF))
		var r zzvRes
		if err != nil {
			r.Err = 2
		}
		for _, c := range cs {
			r.All = append(r.All, zzvCopy(c))
		}
		return cs, r
	}
	want := zzvFresh(func() zzvRes { _, r := read(); return r })
	zzv_Assert(want.Err == 0 && len(want.All) == 3, "valid archive rejected")
	c, err := zzvParse(other)
	rc := zzvOutcome(c, err)
	var bad zzvTar
	bad.add("x", other)
	bad.add("y", []byte("garbage"))
	bad.close()
	_, err = NewComposites(bad.reader(len(bad.b), io.EOF))
	zzv_Assert(err != nil, "invalid archive accepted")
	cs, r := read()
	zzvSameRes(r, want)
	zzvSameRes(zzvOutcome(c, nil), zzvRes{C: rc.C})
	cs2, r2 := read()
	zzvSameRes(r2, want)
	for i := range cs {
		zzvEqual(cs[i], want.All[i])
		zzvSpoil(cs[i])
		zzvEqual(cs2[i], want.All[i])
		cs[i] = nil
	}
	_, r = read()
	zzvSameRes(r, want)
}

// zzvC31Convert converts with different relations.
//
//gosym:job C31 a=0..4 b=0..3
func zzvC31Convert() {
	rel := func(k int) ZR {
		if k == 4 {
			return NewZR(123, 1.3)
		}
		return []ZR{Aniol80, Doelling98, JossWaldvogel70, MarshallPalmer55}[k]
	}
	v, w := zzv_AnyF32("dbz"), zzv_AnyF32("dbz")
	ka, kb := zzv_Param("a"), zzv_Param("b")
	calc := func() zzvRes {
		p := PrecipitationRate(rel(kb), v)
		return zzvRes{F: []float64{p, float64(Reflectivity(rel(kb), p)), PrecipitationRate(NewZR(300, 1.5), v)}}
	}
	want := zzvFresh(calc)
	q := PrecipitationRate(rel(ka), w)
	Reflectivity(rel(ka), q)
	zzvSameRes(calc(), want)
	NewZR(7, 8)
	PrecipitationRate(rel(ka), v)
	zzvSameRes(calc(), want)
}

// zzvC31Use uses a composite between readings.
//
//gosym:job C31 kind=0..5
func zzvC31Use() {
	b, _ := zzvSample(zzv_Param("kind"))
	x, y, z := zzv_Int("x", -3, 5), zzv_Int("y", -3, 5), zzv_Int("z", -2, 2)
	want := zzvFresh(func() zzvRes { return zzvOutcome(zzvParse(b)) })
	c, err := zzvParse(b)
	p, q := c.At(x, y), c.AtZ(x, y, z)
	c.Project(50, 10)
	_ = c.DataUnit.String()
	NewDummy("PG", 9, 460, 460)
	p2, q2 := c.At(x, y), c.AtZ(x, y, z)
	zzv_Assert(p == p2 || IsNaN(p) && IsNaN(p2), "lookup depends on earlier calls")
	zzv_Assert(q == q2 || IsNaN(q) && IsNaN(q2), "lookup depends on earlier calls")
	zzvSameRes(zzvOutcome(c, err), want)
	zzvSameRes(zzvOutcome(zzvParse(b)), want)
}
