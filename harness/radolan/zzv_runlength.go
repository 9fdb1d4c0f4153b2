package radolan

//gosym:bound C10 one and two rows of 1..6 pixels with line number and up to four line bytes arbitrary (offset byte included); level tables of 0..15 entries; rows of 256..1200 pixels with one, two or three offset bytes, each offset continuation and the run after it arbitrary; lines of 4090..9990 runs; empty lines

// zzvRowRef expands a run-length line.
func zzvRowRef(w int, line []byte, level []float32) (row []float32, ok bool) {
	row = make([]float32, w)
	for i := range row {
		row[i] = NaN
	}
	if len(line) == 0 {
		return row, true
	}
	pos, i := 0, 1
	for i < len(line) {
		b := line[i]
		i++
		if b < 16 {
			return nil, false
		}
		pos += int(b) - 16
		if b != 255 {
			break
		}
	}
	for ; i < len(line); i++ {
		n, v := int(line[i]/16), int(line[i]%16)
		x := NaN
		if v > 0 && v <= len(level) {
			x = level[v-1]
		}
		for ; n > 0; n-- {
			if pos >= w {
				return nil, false
			}
			row[pos] = x
			pos++
		}
	}
	return row, true
}

func zzvSame(a, b float32) bool { return a == b || IsNaN(a) && IsNaN(b) }

// zzvLevels is a level field of n distinct values and its values.
func zzvLevels(n int) (string, []float32) {
	f := "LV" + zzvPad(n, 2)
	var v []float32
	for i := 0; i < n; i++ {
		f += zzvPad(i+1, 3) + ".5"
		v = append(v, float32(i+1)+0.5)
	}
	return f, v
}

// zzvC10Line expands one arbitrary line.
//
//gosym:job C10 cols=1..6 n=1..3 lv=3
//gosym:job C10 cols=3,5 n=2 lv=0,1,2,7,14,15
//gosym:job C10 cols=3 n=4 lv=2
//gosym:job C10 thorough cols=1..6 n=4 lv=0..15
//gosym:job C10 thorough cols=2,15,16,17 n=1..3 lv=15
func zzvC10Line() {
	cols := zzv_Param("cols")
	f, level := zzvLevels(zzv_Param("lv"))
	line := append([]byte{zzv_Byte("no")}, zzvBytes("line", zzv_Param("n"))...)
	for _, b := range line {
		zzv_Assume(b != 10)
	}
	want, ok := zzvRowRef(cols, line, level)
	data := append([]byte{7, 16, 0x11, 10}, line...)
	data = append(data, 10, 9, 16, 0x12, 10)
	c, err := zzvParse(zzvStream("PG", zzvStamp, f+zzvGP(3, cols), data, 0))
	if !ok {
		zzv_Assert(err != nil && err != ErrUnknownUnit, "invalid run-length line accepted")
		return
	}
	zzv_Assert(err == nil, "valid run-length line rejected")
	for x := 0; x < cols; x++ {
		zzv_Assert(zzvSame(c.Data[1][x], want[x]), "run-length line expanded wrongly")
		for y, b := range []byte{0x11, 0, 0x12} {
			if y == 1 {
				continue
			}
			w, _ := zzvRowRef(cols, []byte{0, 16, b}, level)
			zzv_Assert(zzvSame(c.Data[y][x], w[x]), "a line changed another row")
		}
	}
	for y := range c.Data {
		zzv_Observe("row", c.Data[y])
	}
}

// zzvC10Offset uses long offsets.
//
//gosym:job C10 cols=256 k=0,1 nib=1,15
//gosym:job C10 cols=300 k=1 nib=2
//gosym:job C10 cols=500 k=1,2 nib=0,9
//gosym:job C10 cols=740 k=2,3 nib=15
//gosym:job C10 cols=1200 k=4 nib=15
//gosym:job C10 thorough cols=239,240,241,477,478,479,480,920,1000 k=0..4 nib=0..15
func zzvC10Offset() {
	cols, k := zzv_Param("cols"), zzv_Param("k")
	f, level := zzvLevels(4)
	line := []byte{zzv_Byte("no")}
	for i := 0; i < k; i++ {
		line = append(line, 255)
	}
	o, r := zzv_Byte("offset"), zzv_Byte("run")
	zzv_Assume(line[0] != 10 && o != 10 && r != 10)
	zzv_Assume(o < 255)
	zzv_Assume(int(r/16) == zzv_Param("nib"))
	r = byte(zzv_Param("nib")*16) + r%16
	line = append(line, byte(zzv_Concretize(int(o))), r, 0x12)
	want, ok := zzvRowRef(cols, line, level)
	c, err := zzvParse(zzvStream("PG", zzvStamp, f+zzvGP(1, cols), append(line, 10), 0))
	if !ok {
		zzv_Assert(err != nil && err != ErrUnknownUnit, "overrun accepted")
		return
	}
	zzv_Assert(err == nil, "valid run-length line rejected")
	for x := 0; x < cols; x++ {
		if got := c.Data[0][x]; got != want[x] {
			zzv_Assert(IsNaN(got) && IsNaN(want[x]), "run-length line expanded wrongly")
		}
	}
}

// zzvC10Empty has lines of no bytes, only a line number, or only offsets.
//
//gosym:job C10 kind=0..3
func zzvC10Empty() {
	f, _ := zzvLevels(2)
	no, o := zzv_Byte("no"), zzv_Byte("offset")
	zzv_Assume(no != 10 && o != 10)
	line := [][]byte{{}, {no}, {no, o}, {no, 255, o}}[zzv_Param("kind")]
	c, err := zzvParse(zzvStream("PG", zzvStamp, f+zzvGP(1, 3), append(append([]byte(nil), line...), 10), 0))
	if zzv_Param("kind") >= 2 && o < 16 {
		zzv_Assert(err != nil && err != ErrUnknownUnit, "offset below 16 accepted")
		return
	}
	zzv_Assert(err == nil, "line without runs rejected")
	for x := 0; x < 3; x++ {
		zzv_Assert(IsNaN(c.Data[0][x]), "pixel without run is not NaN")
	}
}

// zzvC10Long has lines of more bytes than pixels and of many bytes.
//
//gosym:job C10 n=4090,4097,9990
func zzvC10Long() {
	n := zzv_Param("n")
	f, lv := zzvLevels(3)
	v := zzv_Byte("run")
	zzv_Assume(v < 4)
	line := []byte{0, 16}
	for i := 0; i < n; i++ {
		line = append(line, 0x10|byte(i/7%4))
	}
	line[2+n/2] = 0x10 | v
	line[1+n] = 0x10 | v
	for i := 0; i < 20; i++ { // runs of no pixels
		line = append(line, byte(i%4))
	}
	want, ok := zzvRowRef(n, line, lv)
	c, err := zzvParse(zzvStream("PG", zzvStamp, f+zzvGP(1, n), append(line, 10), 0))
	zzv_Assert(ok && err == nil, "valid run-length line rejected")
	for x := 0; x < n; x++ {
		zzv_Assert(zzvSame(c.Data[0][x], want[x]), "run-length line expanded wrongly")
	}
}

// zzvC10Gap has a run somewhere in a wide line, the rest is gap.
//
//gosym:job C10 n=255,2500,9999 at=0..3
func zzvC10Gap() {
	n := zzv_Param("n")
	f, lv := zzvLevels(3)
	b := zzv_Byte("run")
	at := []int{0, n / 3, n - 20, n - 1}[zzv_Param("at")]
	line := []byte{7}
	for ; at >= 239; at -= 239 {
		line = append(line, 255)
	}
	line = append(line, byte(16+at), b)
	zzv_Assume(b != 10)
	want, ok := zzvRowRef(n, line, lv)
	c, err := zzvParse(zzvStream("PG", zzvStamp, f+zzvGP(1, n), append(line, 10), 0))
	zzv_Assert((err == nil) == ok, "run beyond the row")
	if !ok {
		return
	}
	for x := 0; x < n; x++ {
		zzv_Assert(zzvSame(c.Data[0][x], want[x]), "run-length line expanded wrongly")
	}
}
