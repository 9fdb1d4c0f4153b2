package main

import (
	"bytes"
	"errors"
	"image"
	"image/color"
	"image/gif"
	"image/jpeg"
	"image/png"
	"io"
	"io/fs"
	"math"
	"os"
	"time"

	"gitlab.cs.fau.de/since/radolan"
	"gitlab.cs.fau.de/since/radolan/radolan2png/vis"
)

//gosym:bound C30 every catalogued product with five intervals, 1x2 pixels; a 16-bit product of 900x900 pixels; every unit (mm, dBZ, km, m/s, unknown), composites of 2x2 pixels with arbitrary bytes of data (every byte in single-byte and run-length products, one byte of each 16-bit value), arbitrary interval of up to five digits for rain sums and seven intervals for every unit; four local products (strips and twelve layers) with four arbitrary runs; two header templates with two adjacent arbitrary bytes at every position; every truncation of three streams; arbitrary streams of up to three bytes; the five known grids at their coarsest resolution with arbitrary values in four pixels; failures of opening, reading, creating and writing, each with and without an existing output file; ten pairs of file names; zero to two command line arguments
//gosym:assume C30 os, log and image/png do what they document: files are replaced by byte slices, log.Fatal and os.Exit end the program with their status, png.Encode writes the image it is given or fails with the writer (replayed with the real ones)

// What can go wrong outside of the program.
const (
	zzvFine = iota
	zzvNoInput
	zzvUnreadable
	zzvNoOutput
	zzvFull
)

type zzvCall struct {
	args  []string // further arguments
	input []byte
	fault int
	old   bool // the output exists
}

type zzvResult struct {
	code    int
	touched bool // the output was created or changed
	img     image.Image
}

// zzvNative runs the compiled program.
var zzvNative func(zzvCall) zzvResult

// The world of the model.

type zzvHandle struct {
	f    *os.File
	name string
	pos  int
	end  bool // appends
}

type zzvFile struct {
	name string
	data []byte
}

var zzvWorld struct {
	run     zzvCall
	handles []*zzvHandle
	files   []*zzvFile
	imgs    []*image.RGBA
	touched bool
}

var zzvErr = errors.New("fault")

var zzvInName, zzvOutName = "in.bin", "out.png"

const zzvOld = "an old image"

func zzvFind(name string) *zzvFile {
	for _, f := range zzvWorld.files {
		if f.name == name {
			return f
		}
	}
	return nil
}

func zzvstub_os__Open(name string) (*os.File, error) {
	return zzvstub_os__OpenFile(name, os.O_RDONLY, 0)
}

func zzvstub_os__Create(name string) (*os.File, error) {
	return zzvstub_os__OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}

func zzvstub_os__OpenFile(name string, flag int, perm fs.FileMode) (*os.File, error) {
	f := zzvFind(name)
	if f != nil && flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0 {
		return nil, zzvErr
	}
	if f == nil || name == zzvOutName && zzvWorld.run.fault == zzvNoOutput {
		if flag&os.O_CREATE == 0 || zzvWorld.run.fault == zzvNoOutput {
			return nil, zzvErr
		}
		f = &zzvFile{name: name}
		zzvWorld.files = append(zzvWorld.files, f)
		zzvWorld.touched = zzvWorld.touched || name == zzvOutName
	}
	if flag&os.O_TRUNC != 0 {
		zzvWorld.touched = zzvWorld.touched || name == zzvOutName
		f.data = nil
	}
	h := &zzvHandle{f: new(os.File), name: name, end: flag&os.O_APPEND != 0}
	zzvWorld.handles = append(zzvWorld.handles, h)
	return h.f, nil
}

func zzvHandleOf(f *os.File) *zzvHandle {
	for _, h := range zzvWorld.handles {
		if h.f == f {
			return h
		}
	}
	return nil
}

func zzvstub_os__File__Read(f *os.File, p []byte) (int, error) {
	h := zzvHandleOf(f)
	if h == nil || zzvWorld.run.fault == zzvUnreadable {
		return 0, zzvErr
	}
	d := zzvFind(h.name).data
	n := copy(p, d[h.pos:])
	h.pos += n
	if n == 0 && len(p) > 0 {
		return 0, io.EOF
	}
	return n, nil
}

func zzvstub_os__File__Write(f *os.File, p []byte) (int, error) {
	h := zzvHandleOf(f)
	if h == nil {
		return len(p), nil // standard output
	}
	if h.name == zzvOutName {
		zzvWorld.touched = true
		if zzvWorld.run.fault == zzvFull {
			return 0, zzvErr
		}
	}
	w := zzvFind(h.name)
	if h.end {
		h.pos = len(w.data)
	}
	n := copy(w.data[h.pos:], p)
	w.data = append(w.data, p[n:]...)
	h.pos += len(p)
	return len(p), nil
}

func zzvstub_os__File__Truncate(f *os.File, size int64) error {
	h := zzvHandleOf(f)
	if h == nil {
		return zzvErr
	}
	w := zzvFind(h.name)
	zzvWorld.touched = zzvWorld.touched || h.name == zzvOutName
	for int64(len(w.data)) < size {
		w.data = append(w.data, 0)
	}
	w.data = w.data[:size]
	return nil
}

func zzvstub_os__File__Seek(f *os.File, offset int64, whence int) (int64, error) {
	h := zzvHandleOf(f)
	if h == nil {
		return 0, zzvErr
	}
	switch whence {
	case io.SeekCurrent:
		offset += int64(h.pos)
	case io.SeekEnd:
		offset += int64(len(zzvFind(h.name).data))
	}
	if offset < 0 || offset > int64(len(zzvFind(h.name).data)) {
		return 0, zzvErr
	}
	h.pos = int(offset)
	return offset, nil
}

func zzvstub_os__File__Close(f *os.File) error {
	if f == nil {
		return zzvErr
	}
	return nil
}

func zzvstub_os__File__Sync(f *os.File) error  { return nil }
func zzvstub_os__File__Name(f *os.File) string { return zzvHandleOf(f).name }

func zzvstub_os__ReadFile(name string) ([]byte, error) {
	f := zzvFind(name)
	if f == nil || zzvWorld.run.fault == zzvUnreadable {
		return nil, zzvErr
	}
	return append([]byte(nil), f.data...), nil
}

func zzvstub_os__WriteFile(name string, data []byte, perm fs.FileMode) error {
	f, err := zzvstub_os__Create(name)
	if err == nil {
		_, err = zzvstub_os__File__Write(f, data)
	}
	return err
}

// zzvInfo describes a file.
type zzvInfo struct{ f *zzvFile }

func (i zzvInfo) Name() string       { return i.f.name }
func (i zzvInfo) Size() int64        { return int64(len(i.f.data)) }
func (i zzvInfo) Mode() fs.FileMode  { return 0644 }
func (i zzvInfo) ModTime() time.Time { return time.Time{} }
func (i zzvInfo) IsDir() bool        { return false }
func (i zzvInfo) Sys() interface{}   { return nil }

func zzvstub_os__Stat(name string) (fs.FileInfo, error) {
	if f := zzvFind(name); f != nil {
		return zzvInfo{f}, nil
	}
	return nil, fs.ErrNotExist
}

func zzvstub_os__Lstat(name string) (fs.FileInfo, error) { return zzvstub_os__Stat(name) }

func zzvstub_os__File__Stat(f *os.File) (fs.FileInfo, error) {
	return zzvstub_os__Stat(zzvHandleOf(f).name)
}

func zzvstub_os__File__WriteString(f *os.File, s string) (int, error) {
	return zzvstub_os__File__Write(f, []byte(s))
}

func zzvstub_os__IsNotExist(err error) bool { return err == fs.ErrNotExist }

func zzvstub_os__Remove(name string) error {
	for i, f := range zzvWorld.files {
		if f.name == name {
			zzvWorld.files = append(zzvWorld.files[:i:i], zzvWorld.files[i+1:]...)
			zzvWorld.touched = zzvWorld.touched || name == zzvOutName
			return nil
		}
	}
	return zzvErr
}

func zzvstub_os__Rename(from, to string) error {
	f := zzvFind(from)
	if f == nil {
		return zzvErr
	}
	zzvstub_os__Remove(to)
	f.name = to
	zzvWorld.touched = zzvWorld.touched || to == zzvOutName
	return nil
}

func zzvstub_image_png__Encode(w io.Writer, m image.Image) error {
	b := m.Bounds()
	if b.Dx() <= 0 || b.Dy() <= 0 {
		return zzvErr
	}
	img := image.NewRGBA(b)
	if r, ok := m.(*image.RGBA); ok && r.Stride == img.Stride {
		copy(img.Pix, r.Pix)
	} else {
		for y := b.Min.Y; y < b.Max.Y; y++ {
			for x := b.Min.X; x < b.Max.X; x++ {
				img.Set(x, y, m.At(x, y))
			}
		}
	}
	zzvWorld.imgs = append(zzvWorld.imgs, img)
	_, err := w.Write([]byte{'I', 'M', byte('0' + len(zzvWorld.imgs))})
	return err
}

// other formats are no PNG images
func zzvstub_image_jpeg__Encode(w io.Writer, m image.Image, o *jpeg.Options) error {
	_, err := w.Write([]byte("JPEG"))
	return err
}

func zzvstub_image_gif__Encode(w io.Writer, m image.Image, o *gif.Options) error {
	_, err := w.Write([]byte("GIF8"))
	return err
}

func zzvstub_os__MkdirAll(path string, perm fs.FileMode) error { return nil }
func zzvstub_os__Mkdir(path string, perm fs.FileMode) error    { return fs.ErrExist }
func zzvstub_os__Chmod(name string, perm fs.FileMode) error    { return nil }

func zzvstub_os__File__Chmod(f *os.File, perm fs.FileMode) error { return nil }

func zzvstub_os__Getenv(key string) string            { return "" }
func zzvstub_os__LookupEnv(key string) (string, bool) { return "", false }

func zzvstub_os__CreateTemp(dir, pattern string) (*os.File, error) {
	return zzvstub_os__OpenFile(dir+"/tmp-"+pattern+string(rune('0'+len(zzvWorld.files))), os.O_RDWR|os.O_CREATE|os.O_EXCL, 0600)
}

func zzvstub_image_png__Encoder__Encode(e *png.Encoder, w io.Writer, m image.Image) error {
	return zzvstub_image_png__Encode(w, m)
}

// zzvExecute runs the program.
func zzvExecute(r zzvCall) (res zzvResult) {
	if !zzv_Symbolic() {
		return zzvNative(r)
	}
	w := &zzvWorld
	w.run = r
	w.handles, w.files, w.imgs, w.touched = nil, nil, nil, false
	os.Stdin, os.Stdout, os.Stderr = new(os.File), new(os.File), new(os.File)
	if r.fault != zzvNoInput {
		w.files = append(w.files, &zzvFile{zzvInName, r.input})
	}
	if r.old {
		w.files = append(w.files, &zzvFile{zzvOutName, []byte(zzvOld)})
	}
	os.Args = append([]string{"radolan2png"}, r.args...)
	res.code = zzvGuard()
	res.touched = w.touched
	if f := zzvFind(zzvOutName); f != nil && len(f.data) == 3 && f.data[0] == 'I' && f.data[1] == 'M' {
		res.img = w.imgs[f.data[2]-'1']
	}
	return
}

// zzvGuard runs main and returns its status.
func zzvGuard() (code int) {
	defer func() {
		if recover() != nil {
			code = 2
		}
	}()
	if code = zzv_Catch(main); code == -1 {
		code = 0
	}
	return
}

func zzvPad(n, w int) string {
	b := make([]byte, w)
	for i := w - 1; i >= 0; i-- {
		if n == 0 && i < w-1 {
			b[i] = ' '
			continue
		}
		b[i] = byte('0' + n%10)
		n /= 10
	}
	return string(b)
}

func zzvStream(prod, fields string, data []byte) []byte {
	head := prod + "260950100000616BY"
	n := len(head) + 7 + len(fields) + 1
	head += zzvPad(n+len(data), 7) + fields + "\x03"
	return append([]byte(head), data...)
}

// zzvGradient is the gradient for the unit.
func zzvGradient(c *radolan.Composite) vis.ColorFunc {
	switch c.DataUnit {
	case radolan.Unit_dBZ:
		return vis.HeatmapReflectivity
	case radolan.Unit_km:
		return vis.Graymap(0, 15, vis.Id)
	case radolan.Unit_mps:
		return vis.HeatmapRadialVelocity
	}
	switch {
	case c.Interval <= time.Hour:
		return vis.Heatmap(0.1, 100, vis.Log)
	case c.Interval < 7*24*time.Hour:
		return vis.Heatmap(0.1, 200, vis.Log)
	}
	return vis.Heatmap(0.1, 400, vis.Log)
}

var (
	zzvYellow = color.RGBA{0xFF, 0xFF, 0, 0xFF}
	zzvGreen  = color.RGBA{0x33, 0xFF, 0x22, 0xFF}
)

func zzvColour(img image.Image, x, y int) color.RGBA {
	if r, ok := img.(*image.RGBA); ok {
		return r.RGBAAt(x, y)
	}
	return color.RGBAModel.Convert(img.At(x, y)).(color.RGBA)
}

// zzvCheck compares the outcome with what the input asks for.
func zzvCheck(r zzvCall) {
	c, err := radolan.NewComposite(bytes.NewReader(r.input))
	res := zzvExecute(r)
	if err != nil || r.fault == zzvNoInput || r.fault == zzvUnreadable {
		zzv_Assert(res.code != 0, "success without a valid input")
		zzv_Assert(!res.touched, "output touched without a valid input")
		zzv_Reach("invalid")
		return
	}
	if r.fault == zzvNoOutput || r.fault == zzvFull {
		zzv_Assert(res.code != 0, "success without an output")
		return
	}
	zzv_Assert(res.code == 0, "failure with a valid input")
	zzv_Assert(res.img != nil, "no image in the output")
	zzv_Assert(res.img.Bounds() == image.Rect(0, 0, c.Dx, c.Dy), "image does not have the size of the composite")
	fn := zzvGradient(c)
	zzv_Reach("valid")
	green := make([]bool, c.Dx*c.Dy)
	for y := 0; y < c.Dy; y++ {
		for x := 0; x < c.Dx; x++ {
			p := zzvColour(res.img, x, y)
			if c.HasProjection {
				if p == zzvGreen {
					green[y*c.Dx+x] = true
					continue
				}
				if p == zzvYellow {
					zzvNearBorder(c, x, y)
					continue
				}
			}
			zzv_Assert(p == fn(float64(c.DataZ[0][y][x])), "pixel does not have the colour of its value")
		}
	}
	if !c.HasProjection {
		return
	}
	for _, b := range zzvBorder {
		x, y := c.Project(b[0], b[1])
		if x >= 0 && y >= 0 && x < float64(c.Dx) && y < float64(c.Dy) {
			p := zzvColour(res.img, int(x), int(y))
			zzv_Assert(p == zzvYellow || p == zzvGreen, "border is missing")
		}
	}
	zzvMesh(c, green)
}

// zzvNearBorder asserts that the border of Germany is not far.
func zzvNearBorder(c *radolan.Composite, px, py int) {
	if zzvBorderAt.c != c {
		zzvBorderAt.c, zzvBorderAt.p = c, nil
		for _, b := range zzvBorder {
			x, y := c.Project(b[0], b[1])
			zzvBorderAt.p = append(zzvBorderAt.p, [2]float64{x, y})
		}
	}
	for _, b := range zzvBorderAt.p {
		if math.Abs((b[0]-float64(px))*c.Rx) < 55 && math.Abs((b[1]-float64(py))*c.Ry) < 55 {
			return
		}
	}
	zzv_Assert(false, "border where there is none")
}

var zzvBorderAt struct {
	c *radolan.Composite
	p [][2]float64
}

// zzvMesh asserts that mesh pixels lie at whole degrees and that every
// crossing is drawn.
func zzvMesh(c *radolan.Composite, green []bool) {
	near := make([]bool, len(green))
	mark := func(n, e float64) {
		x, y := c.Project(n, e)
		if x != x || y != y || math.Abs(x) > 1e6 || math.Abs(y) > 1e6 {
			return
		}
		// a tenth of a degree off
		dx, dy := 10/c.Rx+1, 14/c.Ry+1
		for py := int(y - dy); float64(py) <= y+dy; py++ {
			for px := int(x - dx); float64(px) <= x+dx; px++ {
				if px >= 0 && py >= 0 && px < c.Dx && py < c.Dy {
					near[py*c.Dx+px] = true
				}
			}
		}
	}
	for n := 46; n <= 55; n++ {
		for e := 1; e <= 16; e++ {
			for k := 0; k < 10; k++ {
				mark(float64(n), float64(e)+float64(k)/10)
				mark(float64(n)+float64(k)/10, float64(e))
			}
		}
	}
	for i, g := range green {
		zzv_Assert(!g || near[i], "mesh where there is none")
	}
	for n := 47; n <= 54; n++ {
		for e := 2; e <= 15; e++ {
			x, y := c.Project(float64(n), float64(e))
			dx, dy := 10/c.Rx+1, 14/c.Ry+1
			if x < dx || y < dy || x+dx+1 >= float64(c.Dx) || y+dy+1 >= float64(c.Dy) {
				continue
			}
			found := false
			for py := int(y - dy); float64(py) <= y+dy; py++ {
				for px := int(x - dx); float64(px) <= x+dx; px++ {
					found = found || green[py*c.Dx+px]
				}
			}
			zzv_Assert(found, "mesh is missing")
		}
	}
}

var zzvBoth = []string{"in.bin", "out.png"}

// zzvC30 converts small composites of every unit.
//
//gosym:job C30 prod=0..7 old=0,1 int=0
//gosym:job C30 prod=0..7 old=0 int=1..6
func zzvC30() {
	k := zzv_Param("prod")
	prod := []string{"RW", "FX", "RX", "PE", "PR", "W3", "QQ", "PG"}[k]
	interval := []string{"INT  60", "", "INT   5", "INT  61", "INT1440", "INT10080", "INT 120VV  15"}[zzv_Param("int")]
	fields := "VS 3" + interval + "GP   2x   2"
	data := make([]byte, 8)
	switch k {
	case 2:
		data = data[:4]
	case 3, 4, 7:
		fields = "LV 6  1.0  2.5  4.0 14.9 15.0 55.0CS0MX 0" + interval + "BG002002"
		data = []byte{1, 16, 0x20, 0x20, 10, 2, 16, 0x20, 0x20, 10}
	}
	for i := range data {
		if len(data) == 8 && i%4 != 0 && i%4 != 3 {
			data[i] = []byte{0, 0x0A, 0x84, 0, 0, 0x29, 0xC4, 0}[i]
		} else if len(data) < 10 || data[i] == 0x20 {
			data[i] = zzv_Byte("data")
			if len(data) == 10 {
				zzv_Assume(data[i] >= 0x10 && data[i] <= 0x16)
			}
		}
	}
	r := zzvCall{zzvBoth, zzvStream(prod, fields, data), zzvFine, zzv_Param("old") == 1}
	c, err := radolan.NewComposite(bytes.NewReader(r.input))
	zzv_Assert(prod == "QQ" || err == nil && c.DataUnit == []radolan.Unit{radolan.Unit_mm, radolan.Unit_dBZ, radolan.Unit_dBZ, radolan.Unit_km, radolan.Unit_mps, radolan.Unit_mm, 0, radolan.Unit_dBZ}[k], "valid stream rejected")
	zzvCheck(r)
}

// zzvC30Interval converts rain sums of every interval.
//
//gosym:job C30 nomerge w=1..5
func zzvC30Interval() {
	w := zzv_Param("w")
	f := "VS 3INT "
	for i := 0; i < w; i++ {
		b := zzv_Byte("digit")
		zzv_Assume(b >= '0' && b <= '9')
		f += string([]byte{b})
	}
	data := []byte{zzv_Byte("data"), 1, 0xC4, 0x29}
	zzvCheck(zzvCall{zzvBoth, zzvStream("RW", f+"GP   1x   2", data), zzvFine, false})
}

// zzvLabels are all catalogued products.
const zzvLabels = "CHD2D3EBECEHEMEWEYEZPHPYRARBRERHRKRLRMRNRQRRRURWRYRZS2S3SFSHSQTBTHTWTZW1W2W3W4YWCXEAEXFXFZHXOLOXPAPCPFPGPIPKPLPMPNPXPZRXTXWNWXPEPDPRPUPV"

// zzvC30Label converts a composite of every product.
//
//gosym:job C30 samples=2 prod=0..67 int=0..4
func zzvC30Label() {
	k := zzv_Param("prod")
	f := "VS 3" + []string{"", "INT  60", "INT  61", "INT1440", "INT20160"}[zzv_Param("int")] + "GP   1x   2"
	r := zzvCall{zzvBoth, zzvStream(zzvLabels[2*k:2*k+2], f, []byte{zzv_Byte("data"), 0, zzv_Byte("data"), 0x42}), zzvFine, false}
	_, err := radolan.NewComposite(bytes.NewReader(r.input))
	zzv_Assert(err == nil, "valid stream rejected")
	zzvCheck(r)
}

// zzvC30Local converts local products, also those of twelve layers.
//
//gosym:job C30 prod=0..3
func zzvC30Local() {
	k := zzv_Param("prod")
	rows := []int{224, 2400, 2400, 224}[k]
	var data []byte
	for i := 0; i < rows; i++ {
		data = append(data, byte(i), byte(120+i%7), byte(0x10+i%6), 0x10, byte(0x21+i%5), 10)
	}
	for _, i := range []int{rows - 1, rows - 200, 199, 0} {
		b := zzv_Byte("run")
		zzv_Assume(b >= 0x10 && b <= 0x27)
		data[6*i+4] = b
	}
	for i := range data { // the line number is no line end
		if i%6 == 0 && data[i] == 10 {
			data[i] = 11
		}
	}
	s := zzvStream([]string{"PE", "PU", "PZ", "PR"}[k], "LV 6-31.5  2.5  4.0 14.9 15.0 55.0CS0MX 0", data)
	_, err := radolan.NewComposite(bytes.NewReader(s))
	zzv_Assert(err == nil, "valid stream rejected")
	zzvCheck(zzvCall{zzvBoth, s, zzvFine, false})
}

// zzvC30Window has two arbitrary bytes in the header.
//
//gosym:job C30 make=6 tm=0..1 pos=0..46
func zzvC30Window() {
	s := zzvStream("RW", "VS 3PR E-01GP   1x   1", []byte{0xC4, 0x29})
	if zzv_Param("tm") == 1 {
		s = zzvStream("RX", "VV 005INT   5GP   1x   1", []byte{250})
	}
	pos := zzv_Param("pos")
	for i := pos; i < pos+2 && s[i] != 3; i++ {
		s[i] = zzv_Byte("b")
	}
	zzvCheck(zzvCall{zzvBoth, s, zzvFine, true})
}

// zzvC30Cut cuts the input.
//
//gosym:job C30 tm=0..2
func zzvC30Cut() {
	var s []byte
	switch zzv_Param("tm") {
	case 0:
		s = zzvStream("RW", "VS 3GP   1x   2", []byte{20, 1, 30, 1})
	case 1:
		s = zzvStream("RX", "GP   2x   2", []byte{90, 1, 2, 3})
	case 2:
		s = zzvStream("PG", "LV 2  1.0  2.0CS0MX 0BG002002", []byte{1, 16, 0x10, 0x12, 10, 2, 16, 0x20, 10})
	}
	n := zzv_Choose("length", len(s)+1)
	zzvCheck(zzvCall{zzvBoth, s[:n], zzvFine, zzv_Bool("old")})
}

// zzvC30Any converts short arbitrary streams.
//
//gosym:job C30 n=0..3
func zzvC30Any() {
	var s []byte
	for i := 0; i < zzv_Param("n"); i++ {
		s = append(s, zzv_Byte("b"))
	}
	zzvCheck(zzvCall{zzvBoth, s, zzvFine, zzv_Bool("old")})
}

// zzvC30Fault lets something go wrong outside the program.
//
//gosym:job C30 fault=1..4 old=0,1 kind=0..2
func zzvC30Fault() {
	data := []byte{zzv_Byte("data"), 0}
	s := zzvStream("RW", "GP   1x   1", data)
	switch zzv_Param("kind") {
	case 1: // does not parse
		s = zzvStream("RW", "GP   1x   2", data)
	case 2: // unknown unit
		s = zzvStream("Q1", "GP   1x   1", data)
	}
	f := zzv_Param("fault")
	zzvCheck(zzvCall{zzvBoth, s, f, zzv_Param("old") == 1 && f != zzvNoOutput && f != zzvFull})
}

// zzvC30Name converts files of other names.
//
//gosym:job C30 name=0..9 old=0,1
func zzvC30Name() {
	k := zzv_Param("name")
	zzvInName = []string{"in.bin", "-", "a b", "in.gz", "raa01-rw_10000-1605011250-dwd---bin.gz", "in", "in.tar.bz2", "in.png", "RW.bz2", "-o"}[k]
	zzvOutName = []string{"out.jpg", "out", "out.gif", "OUT.PNG", "out.jpeg", "-", "-v", "out.bmp", "a b.tif", "%d.png"}[k]
	defer func() { zzvInName, zzvOutName = "in.bin", "out.png" }()
	s := zzvStream("RW", "GP   1x   2", []byte{zzv_Byte("data"), 1, 0xC4, 0x29})
	if zzv_Bool("cut") {
		s = s[:len(s)-1]
	}
	zzvCheck(zzvCall{[]string{zzvInName, zzvOutName}, s, zzvFine, zzv_Param("old") == 1})
}

// zzvC30Args gives too few arguments.
//
//gosym:job C30 n=0,1
func zzvC30Args() {
	s := zzvStream("RW", "GP   1x   1", []byte{1, 2})
	args := zzvBoth[:zzv_Param("n")]
	res := zzvExecute(zzvCall{args, s, zzvFine, zzv_Bool("old")})
	zzv_Assert(res.code == 0, "failure instead of help")
	zzv_Assert(!res.touched, "output touched without arguments")
}

// zzvC30Grid converts composites with a projection.
//
//gosym:job C30 grid=0..5 t=200
//gosym:job C30 grid=6 t=300 samples=1
func zzvC30Grid() {
	g := zzv_Param("grid")
	d := [][2]int{{115, 115}, {225, 225}, {275, 225}, {300, 275}, {300, 275}, {375, 350}, {900, 900}}[g]
	f := "VS " + []string{" 3", " 3", " 3", " 3", " 5", " 3", " 3"}[g] + "GP" + zzvPad(d[0], 4) + "x" + zzvPad(d[1], 4)
	data := make([]byte, d[0]*d[1])
	if g == 6 {
		data = make([]byte, 2*d[0]*d[1])
	}
	for i := range data {
		data[i] = 250
	}
	for _, i := range []int{0, 1, len(data) / 2, len(data) - 1} {
		data[i] = zzv_Byte("data")
	}
	zzvCheck(zzvCall{zzvBoth, zzvStream("RX", f, data), zzvFine, false})
}
