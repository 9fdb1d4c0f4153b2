package radolan

import (
	"bufio"
	"bytes"
	"errors"
	"io"
	"strings"
)

// zzvReader delivers a stream in pieces.
type zzvReader struct {
	b     []byte
	pos   int
	sizes []int // sizes of the pieces, repeated; 0 is an empty read
	n     int
	last  bool  // deliver the final error together with the last piece
	err   error // final error
}

func (r *zzvReader) Read(p []byte) (int, error) {
	if r.pos == len(r.b) {
		return 0, r.err
	}
	k := r.sizes[r.n%len(r.sizes)]
	r.n++
	if k > len(r.b)-r.pos {
		k = len(r.b) - r.pos
	}
	if k > len(p) {
		k = len(p)
	}
	copy(p, r.b[r.pos:r.pos+k])
	r.pos += k
	if r.last && r.pos == len(r.b) {
		return k, r.err
	}
	return k, nil
}

// zzvEqual asserts that two results are the same in every public respect.
func zzvEqual(a, b *Composite) {
	zzv_Assert(a.Product == b.Product, "product differs")
	zzv_Assert(a.CaptureTime.Equal(b.CaptureTime) && a.ForecastTime.Equal(b.ForecastTime) && a.Interval == b.Interval, "times differ")
	zzv_Assert(a.DataUnit == b.DataUnit && a.Format == b.Format, "unit or format differs")
	zzv_Assert(a.Dx == b.Dx && a.Dy == b.Dy && a.Dz == b.Dz && a.Px == b.Px && a.Py == b.Py, "dimensions differ")
	zzv_Assert(a.HasProjection == b.HasProjection, "projection differs")
	zzv_Assert((a.Rx == b.Rx || a.Rx != a.Rx && b.Rx != b.Rx) && (a.Ry == b.Ry || a.Ry != a.Ry && b.Ry != b.Ry), "resolution differs")
	zzv_Assert(len(a.PlainData) == len(b.PlainData) && len(a.DataZ) == len(b.DataZ) && len(a.Data) == len(b.Data), "data shape differs")
	for y := range a.PlainData {
		zzvEqualRow(a.PlainData[y], b.PlainData[y])
	}
	for z := range a.DataZ {
		zzv_Assert(len(a.DataZ[z]) == len(b.DataZ[z]), "data shape differs")
		for y := range a.DataZ[z] {
			zzvEqualRow(a.DataZ[z][y], b.DataZ[z][y])
		}
	}
}

func zzvEqualRow(a, b []float32) {
	zzv_Assert(len(a) == len(b), "data shape differs")
	for x := range a {
		if a[x] != b[x] {
			zzv_Assert(IsNaN(a[x]) && IsNaN(b[x]), "data differs")
		}
	}
}

// zzvSamples are valid streams of every kind with arbitrary data bytes.
// hdr is the length of the header.
func zzvSample(k int) (s []byte, hdr int) {
	var f, prod string
	var data []byte
	prod = "RW"
	switch k {
	case 0: // single byte
		f = "VS 3PR E-01INT  60" + zzvGP(2, 3)
		data = zzvBytes("data", 6)
	case 1: // 16 bit
		prod, f = "FX", "VV 005"+zzvGP(3, 1)
		data = zzvBytes("data", 6)
	case 2: // run length
		prod, f = "PG", "LV 2  1.0 19.0CS0"+zzvGP(2, 3)
		a, b, c, d := zzv_Byte("no"), zzv_Byte("no"), zzv_Byte("run"), zzv_Byte("run")
		zzv_Assume(a != 10 && b != 10 && c != 10 && d != 10 && c < 0x40 && d < 0x30)
		data = []byte{a, 16, c, 10, b, 17, d, 10}
	case 3: // empty lines and a header without spare characters
		prod, f = "PX", "LV 1  3.5BG003002"
		a, b := zzv_Byte("no"), zzv_Byte("run")
		zzv_Assume(a != 10 && b != 10 && b < 0x30)
		data = []byte{10, a, 16, b, 10, 10}
	case 4: // a level table without entries
		prod, f = "PG", "LV 0"+zzvGP(1, 2)
		a := zzv_Byte("no")
		zzv_Assume(a != 10)
		data = []byte{a, 16, 0x21, 10}
	case 5: // data that looks like a header
		prod, f = "QQ", zzvGP(1, 4)
		data = []byte{3, zzv_Byte("data"), 3, 'B'}
	case 6: // rows longer than the read buffer
		prod, f = "SF", zzvGP(2, 4500)
		data = zzvMix("data", 9000, 4)
	case 7:
		prod, f = "RX", zzvGP(3, 2200)
		data = zzvMix("data", 13200, 5)
	case 8:
		prod, f = "PG", "LV 2  1.0 19.0"+zzvGP(1, 700)
		v := zzv_Byte("run")
		zzv_Assume(v < 16)
		data = []byte{1, 16}
		for i := 0; i < 690; i++ {
			data = append(data, 0x10|v)
		}
		data = append(data, 10)
	case 9: // many short lines, more than one read buffer in total
		prod, f = "PG", "LV 2  1.0 19.0"+zzvGP(1100, 3)
		a := zzv_Byte("run")
		zzv_Assume(a < 0x40 && a != 10)
		for i := 0; i < 1100; i++ {
			data = append(data, byte(11+i%200), 16, a, 10)
		}
	case 10: // header with a long text
		f = zzvGP(1, 1) + "MS200<" + string(make([]byte, 300)) + ">"
		data = zzvBytes("data", 1)
	case 11: // header longer than the read buffer
		f = "VS 3MS999<" + string(zzvFill(5000)) + ">PR E-01" + zzvGP(1, 2)
		data = zzvBytes("data", 2)
	case 12: // line longer than the read buffer
		prod, f = "PG", "LV 2  1.0 19.0"+zzvGP(2, 9000)
		v := zzv_Byte("run")
		zzv_Assume(v < 16)
		for y := 0; y < 2; y++ {
			data = append(data, 1, 16)
			for i := 0; i < 8990; i++ {
				data = append(data, 0x11+byte(i>>9&1))
			}
			data = append(data, 0x10|v, 10)
		}
	}
	s = zzvStream(prod, zzvStamp, f, data, 0)
	return s, len(s) - len(data)
}

// zzvFill is a text.
func zzvFill(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('a' + i%26)
	}
	return b
}

func zzvErr(err error) bool { return err != nil && err != ErrUnknownUnit }

//gosym:bound C13 11 kinds of streams (the three encodings, empty lines, empty level table, local label, unknown product, data over several read buffers, long header) with arbitrary data bytes, cut at every position (large streams: every position within 40 bytes of a row or buffer boundary); local products cut at every row boundary and around it; two columns and the rows of every grid (450, 460, 900, 1100, 1200, 1500), cut once in every row

// zzvC13Cut cuts a stream at any position before its last byte.
//
//gosym:job C13 kind=0..5,10 part=0..3
func zzvC13Cut() {
	s, _ := zzvSample(zzv_Param("kind"))
	full, err := zzvParse(s)
	zzv_Assert(zzvOK(full, err), "valid stream rejected")
	n := (len(s) + 3) / 4
	for k := n * zzv_Param("part"); k < n*(zzv_Param("part")+1) && k < len(s); k++ {
		_, err = zzvParse(s[:k:k])
		zzv_Assert(zzvErr(err), "truncated stream accepted")
	}
	zzv_Reach("cut")
}

// zzvC13Large cuts large streams near boundaries and the end.
//
//gosym:job C13 kind=6..9 part=0..7
func zzvC13Large() {
	s, hdr := zzvSample(zzv_Param("kind"))
	at := map[int]bool{}
	for _, b := range []int{hdr, 4096, 8192, 12288, hdr + 4096, hdr + 4500, hdr + 4400, hdr + 8192, hdr + 8800, len(s) / 2, len(s) - 20} {
		for k := b - 20; k < b+20; k++ {
			if k >= 0 && k < len(s) && k%8 == zzv_Param("part") {
				at[k] = true
			}
		}
	}
	for k := 0; k < len(s); k++ {
		if !at[k] {
			continue
		}
		_, err := zzvParse(s[:k:k])
		zzv_Assert(zzvErr(err), "truncated stream accepted")
		zzv_Reach("cut")
	}
}

// zzvC13Local cuts local products, whose data includes layers or a strip.
//
//gosym:job C13 local=1,11 enc=0..2 part=0..7
//gosym:job C13 local=13 enc=0..2 part=2,7
//gosym:job C13 thorough local=0..13 enc=0..2 part=0..7
func zzvC13Local() {
	sp := zzvLocal[zzv_Param("local")]
	s, py := zzvLocalStream(sp.p, zzv_Param("enc"))
	n, row := len(s), (len(s)-30)/py
	cuts := [][]int{
		{n - 1, n - 2, n - 3, n - 5},
		{n - row, n - 2*row, n - row - 1},
		{n - 24*row, n - 24*row - 1}, // the rows that are not part of the picture
		{row * 200, 100 + row*200},
		{n / 2, n/2 + 1},
		{n * 7 / 8, n*7/8 + 1},
		{n - 25*row, n - 200*row},
		{n * 9 / 10, n - 10*row},
	}[zzv_Param("part")]
	for _, k := range cuts {
		_, err := zzvParse(s[:k:k])
		zzv_Assert(zzvErr(err), "truncated stream accepted")
		zzv_Reach("cut")
	}
}

// zzvC13Rows cuts a stream with the number of rows of a grid in every row.
//
//gosym:job C13 enc=0..2 rows=450,460,900,1100,1200,1500 part=0,1 samples=2
func zzvC13Rows() {
	enc, rows := zzv_Param("enc"), zzv_Param("rows")
	data := make([]byte, []int{2, 4, 4}[enc]*rows)
	prod, f := "RX", zzvGP(rows, 2)
	if enc == 2 {
		f += "LV 2  1.0 19.0"
		for y := 0; y < rows; y++ {
			copy(data[4*y:], []byte{byte(11 + y%200), 16, 0x21, 10})
		}
	}
	w := len(data) / rows
	data[len(data)-2] = 0x20 | zzv_Byte("data")&15
	s := zzvStream(prod, zzvStamp, f, data, 0)
	full, err := zzvParse(s)
	zzv_Assert(zzvOK(full, err), "valid stream rejected")
	hdr := len(s) - len(data)
	for y := zzv_Param("part"); y < rows; y += 2 {
		k := hdr + y*w + y*3%w
		_, err = zzvParse(s[:k:k])
		zzv_Assert(zzvErr(err), "truncated stream accepted")
	}
	for k := len(s) - 1; k >= len(s)-2*w; k-- {
		_, err = zzvParse(s[:k:k])
		zzv_Assert(zzvErr(err), "truncated stream accepted")
	}
	zzv_Reach("cut")
}

//gosym:bound C14 13 kinds of streams, those of C13, one with a header and one with lines of more than 4096 bytes, against a single-read parse: piece sizes 1..9, 13, 64, 4095, 4096, 4097, every split into two reads, patterns with empty reads, end of file together with or after the last piece; every position of a read error; up to 8 arbitrary trailing bytes and 6000 bytes of pooled trailing data; 12 types of sources that have been read from before

// zzvC14Pieces reads in pieces of fixed size.
//
//gosym:job C14 kind=0..10 size=1..9,13,64,511,4095,4096,4097 last=0,1
//gosym:job C14 kind=11,12 size=7,4096,4097 last=0
func zzvC14Pieces() {
	s, _ := zzvSample(zzv_Param("kind"))
	want, err := zzvParse(s)
	zzv_Assert(err == nil || zzv_Param("kind") == 5 && err == ErrUnknownUnit, "valid stream rejected")
	got, err2 := NewComposite(&zzvReader{b: s, sizes: []int{zzv_Param("size")}, err: io.EOF, last: zzv_Param("last") == 1})
	zzv_Assert(err == err2, "errors differ")
	zzvEqual(want, got)
}

// zzvC14Pattern mixes short and empty reads.
//
//gosym:job C14 kind=0..5 pat=0..5 last=0,1
//gosym:job C14 kind=6..10 pat=0..5 last=1
func zzvC14Pattern() {
	pats := [][]int{{0, 1}, {1, 0, 0, 2}, {3, 0, 5}, {0, 0, 0, 7, 1}, {100, 1, 0}, {4096, 0, 1, 0, 4095}}
	s, _ := zzvSample(zzv_Param("kind"))
	want, err := zzvParse(s)
	got, err2 := NewComposite(&zzvReader{b: s, sizes: pats[zzv_Param("pat")], err: io.EOF, last: zzv_Param("last") == 1})
	zzv_Assert(err == err2, "errors differ")
	zzvEqual(want, got)
}

// zzvC14Split splits the stream at any position into two reads.
//
//gosym:job C14 kind=0..5,10 part=0..3
func zzvC14Split() {
	s, _ := zzvSample(zzv_Param("kind"))
	want, err := zzvParse(s)
	n := (len(s) + 3) / 4
	for k := n * zzv_Param("part"); k < n*(zzv_Param("part")+1) && k < len(s); k++ {
		if k == 0 {
			continue
		}
		got, err2 := NewComposite(&zzvReader{b: s, sizes: []int{k, len(s)}, err: io.EOF})
		zzv_Assert(err == err2, "errors differ")
		zzvEqual(want, got)
	}
}

// zzvC14Sizes has arbitrary sizes of the first reads.
//
//gosym:job C14 kind=0..3 n=3
//gosym:job C14 thorough kind=0..5 n=5
func zzvC14Sizes() {
	s, _ := zzvSample(zzv_Param("kind"))
	want, err := zzvParse(s)
	sizes := []int{len(s) - 10}
	for i := 0; i < zzv_Param("n"); i++ {
		sizes = append(sizes, zzv_Choose("size", 5))
	}
	sizes = append(sizes, len(s))
	got, err2 := NewComposite(&zzvReader{b: s, sizes: sizes, err: io.EOF, last: zzv_Choose("last", 2) == 1})
	zzv_Assert(err == err2, "errors differ")
	zzvEqual(want, got)
}

// zzvC14Error reports a read error at any position before the last byte.
//
//gosym:job C14 kind=0..5,10 part=0..3 last=0,1
func zzvC14Error() {
	s, _ := zzvSample(zzv_Param("kind"))
	e := errors.New("broken")
	n := (len(s) + 3) / 4
	for k := n * zzv_Param("part"); k < n*(zzv_Param("part")+1) && k < len(s); k++ {
		_, err := NewComposite(&zzvReader{b: s[:k:k], sizes: []int{7}, err: e, last: zzv_Param("last") == 1})
		zzv_Assert(zzvErr(err), "read error ignored")
	}
}

// zzvC14LargeError reports a read error late in a large stream.
//
//gosym:job C14 kind=6..9 at=1,2,3,100,4096,4500,5000 kindOfErr=0..2
func zzvC14LargeError() {
	s, _ := zzvSample(zzv_Param("kind"))
	k := len(s) - zzv_Param("at")
	if k < 10 {
		k = 10
	}
	e := []error{errors.New("broken"), io.ErrUnexpectedEOF, io.ErrClosedPipe}[zzv_Param("kindOfErr")]
	_, err := NewComposite(&zzvReader{b: s[:k:k], sizes: []int{1000}, err: e})
	zzv_Assert(zzvErr(err), "read error ignored")
}

// zzvC14Trailing appends arbitrary bytes, in the same or later reads.
//
//gosym:job C14 kind=0..6,10 n=1,2,8 size=0,5
//gosym:job C14 kind=0..9 n=6000 size=0,4096
func zzvC14Trailing() {
	s, _ := zzvSample(zzv_Param("kind"))
	want, err := zzvParse(s)
	n := zzv_Param("n")
	var t []byte
	if n < 100 {
		t = zzvBytes("trail", n)
	} else {
		t = zzvPool("trail", n, 3)
	}
	all := append(append([]byte(nil), s...), t...)
	size := zzv_Param("size")
	if size == 0 {
		size = len(all)
	}
	got, err2 := NewComposite(&zzvReader{b: all, sizes: []int{size}, err: io.EOF})
	zzv_Assert(err == err2, "errors differ")
	zzvEqual(want, got)
	// an error after the composite does not matter either
	got, err2 = NewComposite(&zzvReader{b: all, sizes: []int{size}, err: errors.New("late")})
	if n > 100 {
		zzv_Assert(err == err2, "errors differ")
		zzvEqual(want, got)
	}
}

// zzvSource is a source of another type that has been read from before, and
// from which more can be read afterwards.
func zzvSource(k int, s []byte) io.Reader {
	all := append(append([]byte("RX26"), s...), "\x03GP 9x 9"...)
	skip := func(r io.Reader) io.Reader {
		b := make([]byte, 4)
		n, err := io.ReadFull(r, b)
		zzv_Assert(n == 4 && err == nil, "source")
		return r
	}
	switch k {
	case 0:
		return skip(bytes.NewReader(all))
	case 1:
		return skip(bytes.NewBuffer(all))
	case 2:
		return skip(strings.NewReader(string(all)))
	case 3:
		return skip(bufio.NewReader(bytes.NewReader(all)))
	case 4:
		return skip(bufio.NewReaderSize(bytes.NewReader(all), 16))
	case 5:
		return skip(bufio.NewReaderSize(bytes.NewReader(all), 1<<16))
	case 6:
		return skip(io.LimitReader(bytes.NewReader(all), int64(4+len(s))))
	case 7:
		return io.MultiReader(bytes.NewReader(s[:20]), strings.NewReader(""), bytes.NewReader(s[20:]), bytes.NewReader(all))
	case 8:
		return skip(io.TeeReader(bytes.NewReader(all), new(bytes.Buffer)))
	case 9:
		return skip(bufio.NewReadWriter(bufio.NewReader(bytes.NewReader(all)), nil))
	case 10:
		return skip(io.NewSectionReader(bytes.NewReader(all), 0, int64(len(all))))
	}
	return struct {
		io.Reader
		io.Seeker
	}{skip(bytes.NewReader(all)), nil}
}

// zzvC14Source reads from sources of other types.
//
//gosym:job C14 kind=0..5,8 src=0..11
func zzvC14Source() {
	s, _ := zzvSample(zzv_Param("kind"))
	want, err := zzvParse(append([]byte(nil), s...))
	got, err2 := NewComposite(zzvSource(zzv_Param("src"), s))
	zzv_Assert(err == err2, "errors differ")
	zzvEqual(want, got)
}
