package radolan

import "time"

var zzvCum = [13]int{0, 0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334}

func zzvLeap(y int) bool { return y%4 == 0 && (y%100 != 0 || y%400 == 0) }

func zzvMonthLen(m, y int) int {
	switch m {
	case 2:
		if zzvLeap(y) {
			return 29
		}
		return 28
	case 4, 6, 9, 11:
		return 30
	}
	return 31
}

// zzvUnix is the Unix time of a date 2000..2068 (UTC).
func zzvUnix(y, m, d, hh, mm int) int {
	days := 10957 + 365*(y-2000) + (y-2000+3)/4 // leap years before y, 2000 included
	days += zzvCum[m]
	if m > 2 && zzvLeap(y) {
		days++
	}
	days += d - 1
	return days*86400 + hh*3600 + mm*60
}

func zzvDig(b byte) bool { return b >= '0' && b <= '9' }

func zzvNum2(s []byte) int { return int(s[0]-'0')*10 + int(s[1]-'0') }

// mode 0: fully arbitrary bytes in the ten date positions, fixed others
// mode 1: digits
func zzvTimeStream(dhm, my []byte) []byte {
	b := zzvStream("RW", zzvStamp, zzvGP(1, 1), []byte{1}, 0)
	copy(b[2:8], dhm)
	copy(b[13:17], my)
	return b
}

//gosym:bound C04 day, hour, minute, month and year digits all symbolic (years 2000..2068, months split into cases); WMO number arbitrary digits; separately one or two arbitrary bytes at any of the ten positions

// zzvC04 has arbitrary digits in the date and the WMO number.
//
//gosym:job C04 month=0..13
func zzvC04() {
	month := zzv_Param("month")
	dhm := zzvDigits("dhm", 6)
	wmo := zzvDigits("wmo", 5)
	yy := zzvDigits("yy", 2)
	year := 2000 + zzvNum2(yy)
	zzv_Assume(year <= 2068)
	s := zzvTimeStream(dhm, []byte{byte('0' + month/10), byte('0' + month%10), yy[0], yy[1]})
	copy(s[8:13], wmo)
	d, hh, mm := zzvNum2(dhm), zzvNum2(dhm[2:]), zzvNum2(dhm[4:])
	c, err := zzvParse(s)
	valid := month >= 1 && month <= 12 && d >= 1 && d <= zzvMonthLen(month, year) && hh < 24 && mm < 60
	if !valid {
		zzv_Assert(err != nil && err != ErrUnknownUnit, "invalid date accepted")
		return
	}
	zzv_Reach("valid date")
	zzv_Assert(zzvOK(c, err), "valid date rejected")
	zzv_Assert(c.CaptureTime.Location() == time.UTC, "capture time not in UTC")
	zzv_Assert(c.CaptureTime.Nanosecond() == 0, "capture time has fractions")
	got := int(c.CaptureTime.Unix())
	zzv_Assert(got == zzvUnix(year, month, d, hh, mm), "capture time wrong")
	zzv_Assert(c.ForecastTime.Equal(c.CaptureTime), "forecast time without VV differs from capture time")
	zzv_Observe("unix", got)
}

// zzvC04Years reads one time of each month of all years, minute arbitrary.
//
//gosym:job C04 decade=0..6
func zzvC04Years() {
	for y := 0; y < 10; y++ {
		yy := 10*zzv_Param("decade") + y
		if yy > 68 {
			return
		}
		d := zzvDigits("minute", 1)[0]
		for m := 1; m <= 12; m++ {
			day := zzvMonthLen(m, 2000+yy) - (m+yy)%5
			hh := (m*7 + yy) % 24
			s := zzvTimeStream([]byte{byte('0' + day/10), byte('0' + day%10), byte('0' + hh/10), byte('0' + hh%10), '5', d}, []byte{byte('0' + m/10), byte('0' + m%10), byte('0' + yy/10), byte('0' + yy%10)})
			c, err := zzvParse(s)
			zzv_Assert(zzvOK(c, err), "valid date rejected")
			zzv_Assert(c.CaptureTime.Location() == time.UTC, "capture time not in UTC")
			zzv_Assert(int(c.CaptureTime.Unix()) == zzvUnix(2000+yy, m, day, hh, 50+int(d-'0')), "capture time wrong")
		}
	}
}

// zzvC04Bytes has arbitrary bytes at two adjacent positions.
//
//gosym:job C04 pos=0..9
func zzvC04Bytes() {
	pos := zzv_Param("pos")
	s := zzvTimeStream([]byte("260950"), []byte("1114"))
	idx := [10]int{2, 3, 4, 5, 6, 7, 13, 14, 15, 16}
	b0, b1 := zzv_Byte("b0"), zzv_Byte("b1")
	s[idx[pos]] = b0
	if pos < 9 {
		s[idx[pos+1]] = b1
	} else {
		b1 = '0'
	}
	_, err := zzvParse(s)
	if !zzvDig(b0) || !zzvDig(b1) {
		zzv_Assert(err != nil && err != ErrUnknownUnit, "non-digit in the date accepted")
	}
	zzv_Observe("err", err != nil)
}
