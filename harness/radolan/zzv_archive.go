package radolan

import (
	"errors"
	"io"
)

//gosym:bound C25 entries of every catalogued product; archives of 0..4 (thorough 5) entries with arbitrary three-digit forecast offsets (times of day for capture differing) in every relative order, entries captured in different hours, days, months and years (8 dates, a century apart), 14 and 40 (thorough 130) entries in four fixed orders with one arbitrary offset, 1030 and 2100 entries with arbitrary data in one; entries of every kind of composite up to three archive blocks long; failing entries (unknown label, garbage header, short content, empty, unparsable field) at every position; archives truncated or failing at every multiple of 64 bytes and around every block boundary, and with an arbitrary changed byte in an entry header; an entry of 40 (thorough 300) MB; 16 unusual entry names, entries of four file kinds and with extended headers, entries that are links, directories or devices; two entries of 900x900 (16-bit) and of 1200x1100 pixels
//gosym:assume C25 bzip2 decompression is the identity in the model (archives are compressed for the native replay); archives cut exactly between entries or inside padding and end marker are not judged

// zzvTar builds an archive.
type zzvTar struct {
	b   []byte
	hdr []int // start of each entry header
	end []int // end of each entry's content

	extra int // bytes of the next entry that follow its content elsewhere
}

func zzvOctal(b []byte, v int) {
	for i := len(b) - 1; i >= 0; i-- {
		b[i] = byte('0' + v&7)
		v >>= 3
	}
}

func (a *zzvTar) add(name string, content []byte) { a.addKind(name, '0', content) }

func (a *zzvTar) addKind(name string, kind byte, content []byte) {
	h := make([]byte, 512)
	copy(h, name)
	copy(h[100:], "0000644\x00")
	copy(h[108:], "0000000\x00")
	copy(h[116:], "0000000\x00")
	zzvOctal(h[124:135], len(content)+a.extra)
	copy(h[136:], "14000000000\x00")
	h[156] = kind
	if kind != 0 {
		copy(h[257:], "ustar\x0000")
	}
	copy(h[148:], "        ")
	sum := 0
	for _, x := range h {
		sum += int(x)
	}
	zzvOctal(h[148:154], sum)
	h[154] = 0
	a.hdr = append(a.hdr, len(a.b))
	a.b = append(append(a.b, h...), content...)
	a.end = append(a.end, len(a.b))
	for len(a.b)%512 != 0 {
		a.b = append(a.b, 0)
	}
}

func (a *zzvTar) close() {
	a.b = append(a.b, make([]byte, 1024)...)
}

// reader delivers the first n bytes, then err.
func (a *zzvTar) reader(n int, err error) io.Reader {
	b := a.b[:n]
	if zzvBzip != nil {
		z := zzvBzip(a.b)
		if n < len(a.b) {
			z = z[:4+(len(z)-18)*n/len(a.b)]
		}
		b = z
	}
	return &zzvReader{b: b, sizes: []int{1000}, err: err}
}

// zzvEntry is a composite with the marker mark and the forecast offset vv.
func zzvEntry(kind, mark int, vv []byte, hour byte) []byte {
	stamp := []byte(zzvStamp)
	stamp[3] = hour
	v := "VV " + string(vv)
	switch kind {
	case 0:
		return zzvStream("FX", string(stamp), v+"INT   5"+zzvGP(1, 2), []byte{byte(mark), 0, 7, 0}, 0)
	case 1: // three blocks
		d := make([]byte, 1100)
		d[0] = byte(mark)
		return zzvStream("RX", string(stamp), v+zzvGP(11, 100), d, 0)
	case 2: // ends at a block boundary
		fill := make([]byte, 512-200-46)
		for i := range fill {
			fill[i] = '.'
		}
		fill[0], fill[len(fill)-1] = '<', '>'
		f := v + "MS" + zzvPad(len(fill), 3) + string(fill) + zzvGP(1, 100)
		return zzvStream("SF", string(stamp), f, append([]byte{byte(mark)}, make([]byte, 199)...), 0)
	case 3: // run length
		return zzvStream("PG", string(stamp), "LV 9  1.0  2.0  3.0  4.0  5.0  6.0  7.0  8.0  9.0"+v+zzvGP(1, 3), []byte{9, 16, 0x20 | byte(mark), 0x10, 10}, 0)
	}
	panic("kind")
}

// zzvMarker is the value that distinguishes an entry.
func zzvMarker(c *Composite) float32 { return c.PlainData[len(c.PlainData)-1][0] }

// zzvArchiveOrder reads an archive and compares the result with the entries
// read one by one.
func zzvArchiveOrder(entries [][]byte) {
	var a zzvTar
	alone := make([]*Composite, len(entries))
	for i, e := range entries {
		c, err := zzvParse(e)
		zzv_Assert(err == nil, "valid entry rejected")
		alone[i] = c
		a.add("raa01-"+zzvPad(i, 3), e)
	}
	a.close()
	cs, err := NewComposites(a.reader(len(a.b), io.EOF))
	zzv_Assert(err == nil, "valid archive rejected")
	zzv_Assert(len(cs) == len(entries), "the number of composites is not the number of entries")
	seen := make([]bool, len(entries))
	for k, c := range cs {
		zzv_Assert(c != nil, "composite missing")
		if k > 0 {
			zzv_Assert(!c.ForecastTime.Before(cs[k-1].ForecastTime), "composites not ordered by forecast time")
		}
		found := false
		for i, o := range alone {
			if !seen[i] && zzvMarker(o) == zzvMarker(c) {
				found = true
				seen[i] = true
				zzvEqual(c, o)
				break
			}
		}
		zzv_Assert(found, "composite without an entry, or entry read twice")
	}
}

// zzvC25 reads archives whose entries come in any order.
//
//gosym:job C25 n=0..4 mix=0,1
//gosym:job C25 thorough n=5 mix=0,1
func zzvC25() {
	n := zzv_Param("n")
	var es [][]byte
	for i := 0; i < n; i++ {
		kind := 0
		if zzv_Param("mix") == 1 {
			kind = (i + 1) % 4
		}
		es = append(es, zzvEntry(kind, i+1, zzvDigits("vv", 3), byte('0'+i%2)))
	}
	zzvArchiveOrder(es)
}

// zzvC25Many reads archives with more entries, in a fixed order except for one.
//
//gosym:job C25 n=14,40 order=0..3
//gosym:job C25 thorough n=130 order=0..3
func zzvC25Many() {
	n := zzv_Param("n")
	var es [][]byte
	for i := 0; i < n; i++ {
		m := i * 5
		switch zzv_Param("order") {
		case 1:
			m = (n - i) * 5
		case 2:
			m = i * 11 % n * 5
		case 3:
			m = i % 3 * 5
		}
		vv := []byte{byte('0' + m/100), byte('0' + m/10%10), byte('0' + m%10)}
		if i == n/2 {
			vv = zzvDigits("vv", 2)
			vv = append(vv, '5')
		}
		es = append(es, zzvEntry(0, i+1, vv, '0'))
	}
	zzvArchiveOrder(es)
}

// zzvC25Count reads an archive of very many entries.
//
//gosym:job C25 n=1030,2100 t=200 samples=1
func zzvC25Count() {
	n := zzv_Param("n")
	d := zzv_Byte("data")
	var a zzvTar
	for i := 0; i < n; i++ {
		m := i * 7 % 999
		mark := i%200 + 1
		if i == n/2 {
			m = 999
		}
		e := zzvEntry(0, mark, []byte{byte('0' + m/100), byte('0' + m/10%10), byte('0' + m%10)}, '0')
		if i == n/2 {
			e[len(e)-4] = d
		}
		a.add("raa01-"+zzvPad(i, 4), e)
	}
	a.close()
	cs, err := NewComposites(a.reader(len(a.b), io.EOF))
	zzv_Assert(err == nil, "valid archive rejected")
	zzv_Assert(len(cs) == n, "the number of composites is not the number of entries")
	zzv_Assert(cs[n-1].Data[0][0] == float32(d)/2-32.5, "composite holds the data of another entry")
	count := make([]int, 201)
	for k, c := range cs {
		zzv_Assert(k == 0 || !c.ForecastTime.Before(cs[k-1].ForecastTime), "composites not ordered by forecast time")
		count[k%200+1]++
		if k < n-1 {
			count[int((c.Data[0][0]+32.5)*2)]--
		}
	}
	count[n/2%200+1]--
	for _, k := range count {
		zzv_Assert(k == 0, "composite without an entry, or entry read twice")
	}
}

// zzvC25Label reads archives of entries of any catalogued product.
//
//gosym:job C25 pos=0..2 same=0,1
func zzvC25Label() {
	p := zzvAnyLabel()
	zzv_Assume(zzvUnitOf(p) != 0)
	var es [][]byte
	for i := 0; i < 3; i++ {
		e := zzvEntry(i*zzv_Param("same"), i+1, zzvDigits("vv", 2), '0')
		if i == zzv_Param("pos") || zzv_Param("same") == 0 {
			copy(e, p)
		}
		es = append(es, e)
	}
	zzvArchiveOrder(es)
}

// zzvDates are capture times around the ends of hours, days, months and years.
var zzvDates = []string{"312355100001215", "010005100000116", "010001100000216", "280300100000216", "282359100000215", "302355100000416", "010001100000516", "150005100000270"}

// zzvC25Dates reads archives of entries captured at different times.
//
//gosym:job C25 a=0..7 b=0..7
func zzvC25Dates() {
	var es [][]byte
	for i, k := range []int{zzv_Param("a"), zzv_Param("b"), zzv_Param("a")} {
		e := zzvEntry(0, i+1, append(zzvDigits("vv", 1), '0', '0')[:3-i/2], '0')
		copy(e[2:], zzvDates[k])
		es = append(es, e)
	}
	zzvArchiveOrder(es)
}

// zzvNames are names an entry can have.
var zzvNames = []string{"", ".", ".hidden", "./x", "../x", "a/b/c", "x/", "x.bz2", "x.tar", "x.md5", "README.txt", "__MACOSX/._x", "PaxHeaders.0/x", "\xc3\xa4\xff", "raa01-fx_10000-1509260950-dwd---bin", "x x\n"}

// zzvC25Names reads archives whose entries have unusual names, also the same.
//
//gosym:job C25 name=0..15 kind=0,48,55,81 same=0,1
func zzvC25Names() {
	k := zzv_Param("name")
	kind := byte(zzv_Param("kind"))
	var a zzvTar
	want := 3
	for i := 0; i < want; i++ {
		name := "n" + zzvPad(i, 1)
		if i == 1 || zzv_Param("same") == 1 {
			name = zzvNames[k]
		}
		if kind == 0 && name != "" && name[len(name)-1] == '/' {
			name = "n"
		}
		if i == 0 { // an extended header is no entry
			a.addKind("PaxHeaders.0/x", 'x', []byte("17 comment=12345\n"))
		}
		a.addKind(name, kind, zzvEntry(0, i+1, zzvDigits("vv", 3), '0'))
	}
	a.close()
	cs, err := NewComposites(a.reader(len(a.b), io.EOF))
	zzv_Assert(err == nil, "valid archive rejected")
	zzv_Assert(len(cs) == want, "the number of composites is not the number of entries")
	sum := float32(0)
	for i, c := range cs {
		sum += zzvMarker(c) + 32.5
		zzv_Assert(i == 0 || !c.ForecastTime.Before(cs[i-1].ForecastTime), "composites not ordered by forecast time")
	}
	zzv_Assert(sum == (1+2+3)/2.0, "composite without an entry, or entry read twice")
}

// zzvZeros delivers n zero bytes.
type zzvZeros struct{ n int }

func (z *zzvZeros) Read(p []byte) (int, error) {
	if z.n == 0 {
		return 0, io.EOF
	}
	n := len(p)
	if n > z.n {
		n = z.n
	}
	clear(p[:n])
	z.n -= n
	return n, nil
}

// zzvC25Big reads an archive of many megabytes: bytes follow the data section
// of an entry.
//
//gosym:job C25 mb=6,40
//gosym:job C25 thorough mb=300
func zzvC25Big() {
	zeros := zzv_Param("mb") << 20
	var a zzvTar
	cut := 0
	for i := 0; i < 3; i++ {
		e := zzvEntry(0, i+1, zzvDigits("vv", 2), '0')
		for len(e)%512 != 0 {
			e = append(e, 0)
		}
		a.extra = 0
		if i == 1 {
			a.extra = zeros
		}
		a.add("x", e)
		if i == 1 {
			cut = len(a.b)
		}
	}
	a.close()
	var rd io.Reader = io.MultiReader(&zzvReader{b: a.b[:cut], sizes: []int{1000}, err: io.EOF}, &zzvZeros{zeros}, &zzvReader{b: a.b[cut:], sizes: []int{1000}, err: io.EOF})
	if zzvBzip != nil {
		b, _ := io.ReadAll(rd)
		rd = &zzvReader{b: zzvBzip(b), sizes: []int{1000}, err: io.EOF}
	}
	cs, err := NewComposites(rd)
	zzv_Assert(err == nil, "valid archive rejected")
	zzv_Assert(len(cs) == 3, "the number of composites is not the number of entries")
	sum := float32(0)
	for i, c := range cs {
		sum += zzvMarker(c) + 32.5
		zzv_Assert(i == 0 || !c.ForecastTime.Before(cs[i-1].ForecastTime), "composites not ordered by forecast time")
	}
	zzv_Assert(sum == (1+2+3)/2.0, "composite without an entry, or entry read twice")
}

// zzvC25Large reads an archive of whole grids.
//
//gosym:job C25 rows=900 cols=900 enc=1 t=150 samples=1
//gosym:job C25 rows=1200 cols=1100 enc=0 t=150 samples=1
func zzvC25Large() {
	rows, cols, enc := zzv_Param("rows"), zzv_Param("cols"), zzv_Param("enc")
	var a zzvTar
	var first, last [2]byte
	for i := 0; i < 2; i++ {
		data := make([]byte, rows*cols*(enc+1))
		first[i], last[i] = zzv_Byte("data"), zzv_Byte("data")
		zzv_Assume(first[i] < 250 && last[i] < 250)
		data[0], data[len(data)-1-enc] = first[i], last[i]
		v := []string{"VV 015", "VV 010"}[i]
		a.add("raa01-"+zzvPad(i, 3), zzvStream("RX", zzvStamp, v+zzvGP(rows, cols), data, 0))
	}
	a.close()
	cs, err := NewComposites(a.reader(len(a.b), io.EOF))
	zzv_Assert(err == nil, "valid archive rejected")
	zzv_Assert(len(cs) == 2, "the number of composites is not the number of entries")
	for i, c := range cs {
		k := 1 - i
		zzv_Assert(c.Data[rows-1][0] == float32(first[k])/2-32.5 && c.Data[0][cols-1] == float32(last[k])/2-32.5, "composite holds the data of another entry")
		zzv_Assert(c.Data[rows/2][cols/2] == -32.5, "composite holds the data of another entry")
	}
}

// zzvC25Special has an entry that is no file: it is no composite.
//
//gosym:job C25 kind=49..54 pos=0..2 name=0..3
func zzvC25Special() {
	name := []string{"d/", "./", "x", ".x"}[zzv_Param("name")]
	var a zzvTar
	for i := 0; i < 3; i++ {
		if i == zzv_Param("pos") {
			a.addKind(name, byte(zzv_Param("kind")), nil)
		}
		a.add("x", zzvEntry(0, i+1, zzvDigits("vv", 1), '0'))
	}
	a.close()
	cs, err := NewComposites(a.reader(len(a.b), io.EOF))
	zzv_Assert(err != nil, "archive with an entry that is no composite accepted")
	zzv_Assert(cs == nil, "composites returned together with an error")
}

// zzvC25Entry puts an unreadable entry at any position.
//
//gosym:job C25 n=1..3 pos=0..2 bad=0..6
func zzvC25Entry() {
	n, pos := zzv_Param("n"), zzv_Param("pos")
	if pos >= n {
		pos = n - 1
	}
	var a zzvTar
	for i := 0; i < n; i++ {
		e := zzvEntry(i%4, i+1, []byte("005"), '0')
		if i == pos {
			switch zzv_Param("bad") {
			case 0: // unknown unit
				e[0], e[1] = 'Q', 'Q'
			case 1: // garbage
				for j := range e[:40] {
					if e[j] == 3 {
						break
					}
					b := zzv_Byte("garbage")
					zzv_Assume(b < 'A' && b != 3)
					e[j] = b
				}
			case 2: // too short
				e = e[:len(e)-1]
			case 3: // empty
				e = nil
			case 4: // header only in part
				e = e[:30]
			case 5: // declared one byte longer than it is
				e[2+15+2+6]++
			case 6: // no number where one is expected
				b := zzv_Byte("month")
				zzv_Assume(b < '0' || b > '9')
				e[13] = b
			}
		}
		a.add("x", e)
	}
	a.close()
	cs, err := NewComposites(a.reader(len(a.b), io.EOF))
	zzv_Assert(err != nil, "archive with an unreadable entry accepted")
	zzv_Assert(cs == nil, "composites returned together with an error")
}

// zzvC25Cut truncates the archive or fails while it is read.
//
//gosym:job C25 n=1..3 fail=0,1 part=0..3
func zzvC25Cut() {
	n := zzv_Param("n")
	var a zzvTar
	for i := 0; i < n; i++ {
		a.add("x", zzvEntry(i%4, i+1, []byte("005"), '0'))
	}
	total := len(a.b)
	a.close()
	inside := func(k int) bool {
		for i := range a.hdr {
			if k > a.hdr[i] && k < a.end[i] {
				return true
			}
		}
		return false
	}
	err := io.EOF
	if zzv_Param("fail") == 1 {
		err = errors.New("broken")
	}
	if zzv_Param("fail") == 0 {
		total = a.end[n-1]
	}
	q := (total + 3) / 4
	for k := zzv_Param("part") * q; k < total && k < (zzv_Param("part")+1)*q; k++ {
		if m := k % 512; m > 2 && m < 510 && k%64 != 0 {
			continue
		}
		if zzv_Param("fail") == 0 && !inside(k) {
			continue
		}
		cs, e := NewComposites(a.reader(k, err))
		zzv_Assert(e != nil, "incomplete archive accepted")
		zzv_Assert(cs == nil, "composites returned together with an error")
		zzv_Reach("cut")
	}
}

// zzvC25Header changes one byte of an entry header; the checksum does not fit.
//
//gosym:job C25 n=1..2 pos=0..1
func zzvC25Header() {
	n, pos := zzv_Param("n"), zzv_Param("pos")
	if pos >= n {
		pos = n - 1
	}
	var a zzvTar
	for i := 0; i < n; i++ {
		a.add("x", zzvEntry(0, i+1, []byte("005"), '0'))
	}
	a.close()
	b := zzv_Byte("changed")
	at := a.hdr[pos] + 200 // unused part of the link name
	zzv_Assume(b != a.b[at])
	a.b[at] = b
	cs, err := NewComposites(a.reader(len(a.b), io.EOF))
	zzv_Assert(err != nil, "damaged archive accepted")
	zzv_Assert(cs == nil, "composites returned together with an error")
}
