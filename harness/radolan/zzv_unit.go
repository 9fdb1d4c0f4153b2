package radolan

//gosym:bound C17 every label of a capital letter and any other 7-bit character against the documented catalogue, with and without VS, PR, VV, INT and MS fields (digits arbitrary) and in all three encodings; data of up to 2x2 pixels with arbitrary bytes; any capture time

//gosym:assume C17 labels that are field names themselves (VV, GP, BG, VS, LV, E followed by a digit) are no product labels

// zzvUnits is the documented catalogue.
var zzvUnits = [5]string{
	1: "CH D2 D3 EB EC EH EM EW EY EZ PH PY RA RB RE RH RK RL RM RN RQ RR RU RW RY RZ S2 S3 SF SH SQ TB TH TW TZ W1 W2 W3 W4 YW",
	2: "CX EA EX FX FZ HX OL OX PA PC PF PG PI PK PL PM PN PX PZ RX TX WN WX",
	3: "PE",
	4: "PD PR PU PV",
}

func zzvUnitOf(p []byte) int {
	u := 0
	for k := 1; k < 5; k++ {
		for i := 0; i < len(zzvUnits[k]); i += 3 {
			if p[0] == zzvUnits[k][i] && p[1] == zzvUnits[k][i+1] {
				u = k
			}
		}
	}
	return u
}

var zzvUnitNames = []string{"unknown unit", "mm", "dBZ", "km", "m/s"}

// zzvC17Label has an arbitrary product label.
//
//gosym:job C17 samples=100 kind=0..4
//gosym:job C17 samples=5 kind=5
func zzvC17Label() {
	p := zzvBytes("prod", 2)
	zzv_Assume(p[0] >= 'A' && p[0] <= 'Z' && p[1] < 128 && p[1] != 3)
	capital := p[1] >= 'A' && p[1] <= 'Z'
	for _, k := range []string{"VV", "GP", "BG", "VS", "LV"} {
		zzv_Assume(string(p) != k)
	}
	zzv_Assume(!(p[0] == 'E' && !capital))
	d := zzvDigits("digits", 3)
	var f string
	var data []byte
	switch zzv_Param("kind") {
	case 0:
		f, data = zzvGP(1, 1), zzvBytes("data", 1)
	case 1:
		f, data = "VS "+string(d[:1])+"INT"+string(d)+zzvGP(2, 1), zzvBytes("data", 4)
	case 2:
		f, data = "PR E-0"+string(d[:1])+"VV "+string(d)+"BG001002", zzvBytes("data", 2)
	case 3:
		f, data = "LV 1  3.5"+zzvGP(1, 2), []byte{1, 16, 0x11, 10}
	case 4:
		f, data = zzvGP(1, 2)+"MS 7<boo,ros>", []byte{250, 7}
	}
	stamp := zzvStamp
	if zzv_Param("kind") == 5 {
		stamp = string(zzvAnyTime())
		f, data = zzvGP(1, 1), []byte{7}
	}
	c, err := zzvParse(zzvStream(string(p), stamp, f, data, 0))
	u := zzvUnitOf(p)
	zzv_Assert(c != nil, "no composite")
	zzv_Assert(int(c.DataUnit) == u, "unit differs from the catalogue")
	if u == 0 {
		zzv_Reach("unknown")
		zzv_Assert(err == ErrUnknownUnit, "unknown unit not reported")
	} else {
		zzv_Reach("known")
		zzv_Assert(err == nil, "catalogued product rejected")
	}
	zzv_Assert(c.DataUnit.String() == zzvUnitNames[u], "unit has a wrong name")
	zzvShape(c)
	switch zzv_Param("kind") {
	case 3:
		zzv_Assert(c.Data[0][0] == 3.5 && IsNaN(c.Data[0][1]), "incomplete data")
	case 4:
		want := float32(7)
		if u == 2 {
			want = 7.0/2 - 32.5
		}
		zzv_Assert(IsNaN(c.Data[0][0]) && c.Data[0][1] == want, "incomplete data")
	}
}

// zzvC17Local reads local products without dimension field.
//
//gosym:job C17 local=0..13
func zzvC17Local() {
	sp := zzvLocal[zzv_Param("local")]
	c, err := zzvParse(zzvStream(sp.p, zzvStamp, "", make([]byte, 200*sp.py), 0))
	zzv_Assert(err == nil, "catalogued product rejected")
	u := zzvUnitOf([]byte(sp.p))
	zzv_Assert(int(c.DataUnit) == u && c.DataUnit.String() == zzvUnitNames[u], "unit differs from the catalogue")
}

//gosym:bound C18 precision fields E-30..E+30 (two digits, one digit, blank-padded) with every single byte and every 16-bit word, for dBZ, mm, km, m/s and unknown units; absent field; no-data values and run-length levels under every precision

// zzvPows are the powers 10^-30..10^30, correctly rounded.
var zzvPows = [61]float64{
	1e-30, 1e-29, 1e-28, 1e-27, 1e-26, 1e-25, 1e-24, 1e-23, 1e-22, 1e-21, 1e-20, 1e-19, 1e-18, 1e-17, 1e-16,
	1e-15, 1e-14, 1e-13, 1e-12, 1e-11, 1e-10, 1e-9, 1e-8, 1e-7, 1e-6, 1e-5, 1e-4, 1e-3, 1e-2, 1e-1, 1,
	1e1, 1e2, 1e3, 1e4, 1e5, 1e6, 1e7, 1e8, 1e9, 1e10, 1e11, 1e12, 1e13, 1e14, 1e15,
	1e16, 1e17, 1e18, 1e19, 1e20, 1e21, 1e22, 1e23, 1e24, 1e25, 1e26, 1e27, 1e28, 1e29, 1e30,
}

// zzvPrecField formats a precision field in one of several ways.
func zzvPrecField(p, style int) string {
	s := "+"
	if p < 0 {
		s, p = "-", -p
	}
	switch style {
	case 0:
		return "PR E" + s + string([]byte{byte('0' + p/10), byte('0' + p%10)})
	case 1:
		return "PR E" + s + zzvPad(p, 1+zzvB2I(p >= 10))
	}
	return "PR E " + s + string([]byte{byte('0' + p/10), byte('0' + p%10)})
}

func zzvB2I(b bool) int {
	if b {
		return 1
	}
	return 0
}

func zzvScaledRef(prod string, raw int, p int) float32 {
	// the exact expression of the documentation first, so that equal terms fold
	v := float32(raw) * float32(zzvPows[p+30])
	if zzvIsDBZ(prod) {
		return v/2 - 32.5
	}
	return v
}

// zzvTol accepts v as raw*10^p (as dBZ for reflectivities) within a relative
// error of 1e-6 of the scaled value.
func zzvTol(got float32, prod string, raw, p int) bool {
	if got == zzvScaledRef(prod, raw, p) {
		return true
	}
	want := float64(raw) * zzvPows[p+30]
	tol := 1e-6 * want
	if tol < 0 {
		tol = -tol
	}
	if zzvIsDBZ(prod) {
		want, tol = want/2-32.5, tol/2+4e-6
	}
	d := float64(got) - want
	return -tol <= d && d <= tol
}

// zzvC18Byte scales single bytes.
//
//gosym:job C18 samples=1 prec=-30..30 prod=0..4
func zzvC18Byte() {
	prod := zzvProducts[zzv_Param("prod")]
	p := zzv_Param("prec")
	b := zzv_Byte("raw")
	c, err := zzvParse(zzvStream(prod, zzvStamp, zzvGP(1, 1)+zzvPrecField(p, 0), []byte{b}, 0))
	zzv_Assert(zzvOK(c, err), "valid precision rejected")
	got := c.Data[0][0]
	if b == 250 {
		zzv_Assert(IsNaN(got), "precision turned no data into a value")
		return
	}
	zzv_Assert(zzvTol(got, prod, int(b), p), "precision misapplied")
	zzv_Observe("v", got)
}

// zzvC18Word scales 16-bit values.
//
//gosym:job C18 samples=1 prec=-30..30 prod=0,1 style=0
//gosym:job C18 samples=1 prec=-9..9 prod=1,3 style=1,2
func zzvC18Word() {
	prod := zzvProducts[zzv_Param("prod")]
	p := zzv_Param("prec")
	w := zzvBytes("raw", 2)
	f := zzvPrecField(p, zzv_Param("style"))
	if p == 0 && zzv_Param("style") == 0 {
		f = "" // absent
	}
	c, err := zzvParse(zzvStream(prod, zzvStamp, f+zzvGP(1, 1), w, 0))
	zzv_Assert(zzvOK(c, err), "valid precision rejected")
	got := c.Data[0][0]
	if w[1]>>5&1 == 1 {
		zzv_Assert(IsNaN(got), "precision turned no data into a value")
		return
	}
	raw := int(w[1]&15)<<8 | int(w[0])
	if w[1]>>6&1 == 1 {
		raw = -raw
	}
	zzv_Assert(zzvTol(got, prod, raw, p), "precision misapplied")
}

// zzvC18Digits has an arbitrary precision field in one parse.
//
//gosym:job C18 neg=0,1 enc=0..2
func zzvC18Digits() {
	n := zzv_Int("prec", 0, 30)
	neg := zzv_Param("neg") == 1
	s := "+"
	if neg {
		s = "-"
	}
	f := "PR E" + s + string([]byte{byte('0' + n/10), byte('0' + n%10)})
	var data []byte
	switch zzv_Param("enc") {
	case 0:
		data = []byte{1, 250}
	case 1:
		data = []byte{1, 0, 1, 0x20}
	case 2:
		f += "LV 2  1.5 19.0"
		data = []byte{1, 16, 0x11, 0x13, 10}
	}
	c, err := zzvParse(zzvStream("RW", zzvStamp, f+zzvGP(1, 2), data, 0))
	zzv_Assert(err == nil, "valid precision rejected")
	zzv_Assert(IsNaN(c.Data[0][1]), "precision turned no data into a value")
	if zzv_Param("enc") == 2 {
		zzv_Assert(c.Data[0][0] == 1.5, "precision changed a level")
		return
	}
	p := zzv_Concretize(n)
	if neg {
		p = -p
	}
	zzv_Assert(zzvTol(c.Data[0][0], "RW", 1, p), "precision misapplied")
}
