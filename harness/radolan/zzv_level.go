package radolan

//gosym:bound C11 level tables of 0..15 numbers addressed through the data and up to 99 through the table; numbers in the forms ddd.d, -dd.d, dd.d, d.ddd, -d.dd, .dddd, ddddd, blank-padded on the left, up to four arbitrary digits; every two-digit count against fields of 0..3 numbers and every length 0..17; five arbitrary characters without a numeric prefix in place of a number
//gosym:assume C11 texts that merely start with a number (such as "1.0xx") or spell nan or inf are not covered

// zzvLVParse parses a single row of run-length data with one pixel per level.
func zzvLVParse(lv string, n int) (*Composite, error) {
	if n > 15 {
		n = 15
	}
	data := []byte{1, 16}
	for i := 0; i < n; i++ {
		data = append(data, byte(0x11+i))
	}
	return zzvParse(zzvStream("PG", zzvStamp, "LV"+lv+zzvGP(1, n+1), append(data, 10), 0))
}

// zzvLVNum is a five-character number whose hidden digits are d.
// form gives the layout: 'd' digits, everything else literal.
func zzvLVNum(form string, d []byte) (txt []byte, m int, pow float32, neg bool) {
	k := 0
	pow = 1
	point := false
	for i := 0; i < len(form); i++ {
		switch form[i] {
		case 'd':
			txt = append(txt, d[k])
			m = m*10 + int(d[k]-'0')
			k++
			if point {
				pow *= 10
			}
			continue
		case '.':
			point = true
		case '-':
			neg = true
		}
		txt = append(txt, form[i])
	}
	return
}

var zzvForms = []string{"ddd.d", "-dd.d", " dd.d", "  d.d", "d.ddd", " -d.d", "-d.dd", "  ddd", "ddddd", " .ddd", "   -d", "dddd."}

func zzvCloseLevel(got float32, m int, pow float32, neg bool) bool {
	w := float32(m) / pow
	if neg {
		w = -w
	}
	return zzvClose32(got, w, 0)
}

// zzvC11Value has one number with two arbitrary adjacent digits.
//
//gosym:job C11 form=0..11 pair=0 n=1,3
//gosym:job C11 form=0,1,2,4,6,7,8,9,11 pair=1 n=1,3
//gosym:job C11 form=0,4,8,11 pair=2 n=1,3
//gosym:job C11 form=8 pair=3 n=1
func zzvC11Value() {
	form := zzvForms[zzv_Param("form")]
	nd := 0
	for _, c := range form {
		if c == 'd' {
			nd++
		}
	}
	pair := zzv_Param("pair")
	v := zzv_Int("v", 0, 99)
	d := []byte("73915")
	d[pair] = byte('0' + v/10)
	if nd > 1 {
		d[pair+1] = byte('0' + v%10)
	}
	txt, m, pow, neg := zzvLVNum(form, d)
	lv, at, n := " 1", 0, 1
	if zzv_Param("n") == 3 {
		lv, at, n = " 3-31.5", 1, 3
	}
	lv += string(txt)
	if n == 3 {
		lv += " 99.5"
	}
	c, err := zzvLVParse(lv, n)
	zzv_Assert(err == nil, "valid level field rejected")
	zzv_Assert(zzvCloseLevel(c.Data[0][at], m, pow, neg), "level misread")
	if n == 3 {
		zzv_Assert(c.Data[0][0] == -31.5 && c.Data[0][2] == 99.5, "another level misread")
	}
	zzv_Assert(IsNaN(c.Data[0][n]), "pixel without run is not NaN")
	zzv_Observe("row", c.Data[0])
}

// zzvC11Digits has four arbitrary digits.
//
//gosym:job C11 form=0..2,4,6,9,11
func zzvC11Digits() {
	d := append(zzvDigits("d", 4), '0')
	txt, m, pow, neg := zzvLVNum(zzvForms[zzv_Param("form")], d)
	c, err := zzvLVParse(" 2"+string(txt)+" 55.0", 2)
	zzv_Assert(err == nil, "valid level field rejected")
	zzv_Assert(zzvCloseLevel(c.Data[0][0], m, pow, neg), "level misread")
	zzv_Assert(c.Data[0][1] == 55, "another level misread")
	zzv_Observe("row", c.Data[0])
}

// zzvC11Count has an arbitrary count against a given number of characters.
//
//gosym:job C11 len=0..17 kind=0,1
func zzvC11Count() {
	n := zzv_Param("len")
	var cnt []byte
	want := 0
	if zzv_Param("kind") == 0 {
		cnt = zzvDigits("cnt", 2)
		want = zzvDec(cnt)
	} else {
		cnt = append([]byte(" "), zzvDigits("cnt", 1)...)
		want = zzvDec(cnt[1:])
	}
	txt := []byte("  1.5  2.5  3.5  4.5")[:n]
	c, err := zzvLVParse(string(cnt)+string(txt), 3)
	if n != want*5 {
		zzv_Assert(err != nil && err != ErrUnknownUnit, "level field with wrong length accepted")
		return
	}
	zzv_Reach("accepted")
	zzv_Assert(err == nil, "valid level field rejected")
	for i := 0; i < 3; i++ {
		got := c.Data[0][i]
		if i < want {
			zzv_Assert(got == float32(i)+1.5, "level misread")
		} else {
			zzv_Assert(IsNaN(got), "level beyond the table is not NaN")
		}
	}
}

// zzvC11Short has a level field of zero or one character.
//
//gosym:job C11 n=0,1 more=0,1
func zzvC11Short() {
	b := zzvBytes("txt", zzv_Param("n"))
	for _, c := range b {
		zzv_Assume(c != 3 && (c < 'A' || c > 'Z') && c < 128)
	}
	f := zzvGP(1, 2)
	if zzv_Param("more") == 1 && len(b) > 0 {
		f += "LV" + string(b) + "CS0"
	} else {
		f += "LV" + string(b)
	}
	_, err := zzvParse(zzvStream("PG", zzvStamp, f, []byte{1, 16, 0x11, 10}, 0))
	zzv_Assert(err != nil && err != ErrUnknownUnit, "truncated level field accepted")
}

// zzvC11Bad has a text that is no number at one place of the table.
//
//gosym:job C11 at=0..2 len=5
//gosym:job C11 thorough at=0..14 len=5
func zzvC11Bad() {
	b := zzvBytes("txt", zzv_Param("len"))
	lead := true
	for i, c := range b {
		zzv_Assume(c != 3 && c != 'E' && (c < 'A' || c > 'Z') && c < 128)
		if lead && c == ' ' {
			continue
		}
		if lead {
			// the first character that counts
			zzv_Assume(!zzvDig(c) && c != 'n' && c != 'i' && c != '.' && c != '+' && c != '-' && (c < 9 || c > 13) && c != 0x85)
			if i > 0 {
				zzv_Reach("blanks")
			}
			lead = false
		}
	}
	at := zzv_Param("at")
	n := at + 2
	lv := zzvPad(n, 2)
	for i := 0; i < n; i++ {
		if i == at {
			lv += string(b)
		} else {
			lv += zzvPad(i+1, 3) + ".5"
		}
	}
	_, err := zzvLVParse(lv, n)
	zzv_Assert(err != nil && err != ErrUnknownUnit, "level that is no number accepted")
}

// zzvC11Table has tables of every size.
//
//gosym:job C11 n=0..20,31,32,64,98,99
//gosym:job C11 thorough n=0..99
func zzvC11Table() {
	n := zzv_Param("n")
	v := zzv_Int("v", 0, 99)
	at := 0
	if n > 0 {
		at = zzv_Choose("at", n)
	}
	lv := zzvPad(n, 2)
	var want []float32
	for i := 0; i < n; i++ {
		if i == at {
			lv += "-" + string([]byte{byte('0' + v/10), byte('0' + v%10)}) + ".5"
			want = append(want, -float32(2*v+1)/2)
			continue
		}
		lv += zzvPad(i, 3) + ".5"
		want = append(want, float32(i)+0.5)
	}
	c, err := zzvLVParse(lv, n)
	zzv_Assert(err == nil, "valid level field rejected")
	zzv_Assert(len(c.level) == n, "wrong number of levels")
	for i, w := range want {
		zzv_Assert(zzvClose32(c.level[i], w, 0), "level misread")
		if i < 15 {
			zzv_Assert(zzvClose32(c.Data[0][i], w, 0), "wrong level in the data")
		}
	}
}
