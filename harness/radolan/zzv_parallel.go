package radolan

import "io"

//gosym:bound C32 readings of 11 kinds of streams with arbitrary data bytes, of headers with arbitrary interval, forecast, precision and data for eight products, of local products, of failing streams (cut, one arbitrary header byte) and of archives; lookups at every 64-bit position and projections at every 64-bit coordinate of shared parsed composites and dummies of nine shapes and formats; conversions at every 32-bit reflectivity with shared and new relations; images of shared composites through shared gradients, and shared gradients, at every 64-bit value
//gosym:assume C32 calls that write only to memory they allocated themselves do not interfere (the Go memory model); state of the standard library is synchronised; a write to older memory is judged by the race detector on the compiled code with four goroutines

// zzvC32Read reads the same kind of stream on several goroutines.
//
//gosym:job C32 race kind=0..10
func zzvC32Read() {
	b, _ := zzvSample(zzv_Param("kind"))
	zzv_Parallel(func() { zzvParse(b) })
}

// zzvC32Head reads headers with many fields.
//
//gosym:job C32 race a=0..7 b=0..7
func zzvC32Head() {
	a, b := zzvHeadStream(zzv_Param("a"), "a"), zzvHeadStream(zzv_Param("b"), "b")
	zzv_Parallel(func() {
		zzvParse(a)
		zzvParse(b)
	})
}

// zzvC32Local reads local products.
//
//gosym:job C32 race a=0,3,5,11 enc=0
//gosym:job C32 race a=0 enc=2
//gosym:job C32 race thorough a=0..13 enc=0..2
func zzvC32Local() {
	b, _ := zzvLocalStream(zzvLocal[zzv_Param("a")].p, zzv_Param("enc"))
	zzv_Parallel(func() { zzvParse(b) })
}

// zzvC32Bad reads streams that fail.
//
//gosym:job C32 race make=12 tm=0..2 part=0..5
func zzvC32Bad() {
	t := zzvTmpls[zzv_Param("tm")]
	bad := t.stream()
	end := len(bad) - len(t.data)
	x := zzv_Byte("b")
	n := (end + 5) / 6
	for i := n * zzv_Param("part"); i < n*(zzv_Param("part")+1) && i < end; i++ {
		s := append([]byte(nil), bad...)
		s[i] = x
		zzv_Parallel(func() { zzvParse(s) })
	}
}

// zzvC32Cut reads streams that end early.
//
//gosym:job C32 race kind=0..5
func zzvC32Cut() {
	b, _ := zzvSample(zzv_Param("kind"))
	zzv_Parallel(func() {
		for n := 0; n < len(b); n++ {
			zzvParse(b[:n:n])
		}
	})
}

// zzvC32Archive reads archives.
//
//gosym:job C32 race bad=0,1
func zzvC32Archive() {
	var t zzvTar
	for i := 0; i < 3; i++ {
		t.add("e"+zzvPad(i, 1), zzvEntry([]int{0, 2, 3}[i], i+1, zzvDigits("vv", 3), '0'))
	}
	if zzv_Param("bad") == 1 {
		t.add("y", []byte("garbage"))
	}
	t.close()
	zzv_Parallel(func() { NewComposites(t.reader(len(t.b), io.EOF)) })
}

// zzvC32Use shares a parsed composite.
//
//gosym:job C32 race kind=0..5 warm=0,1
func zzvC32Use() {
	b, _ := zzvSample(zzv_Param("kind"))
	x, y, z := zzv_Int("x", -1<<63, 1<<63-1), zzv_Int("y", -1<<63, 1<<63-1), zzv_Int("z", -1<<63, 1<<63-1)
	n, e := zzv_AnyF64("north"), zzv_AnyF64("east")
	c, _ := zzvParse(b)
	if zzv_Param("warm") == 1 {
		c.At(1, 1)
		c.Project(50, 10)
	}
	zzv_Parallel(func() {
		c.At(x, y)
		c.AtZ(x, y, z)
		c.Project(n, e)
		_ = c.DataUnit.String()
		_ = IsNaN(c.At(0, 0))
	})
}

// zzvC32Project shares a dummy or parsed composite with a projection.
//
//gosym:job C32 race a=0..9 parsed=0
//gosym:job C32 race a=8,9,3,4 parsed=1
func zzvC32Project() {
	n, e := zzv_AnyF64("north"), zzv_AnyF64("east")
	x, y := zzv_Int("x", -1<<63, 1<<63-1), zzv_Int("y", -1<<63, 1<<63-1)
	k, parsed := zzv_Param("a"), zzv_Param("parsed") == 1
	c := zzvShapeOf(k, parsed)
	zzv_Parallel(func() {
		c.Project(n, e)
		c.At(x, y)
	})
	zzv_Parallel(func() {
		d := zzvShapeOf(k, false)
		d.Project(n, e)
	})
}

// zzvC32Convert shares relations.
//
//gosym:job C32 race a=0..4
func zzvC32Convert() {
	k := zzv_Param("a")
	v := zzv_AnyF32("dbz")
	r := NewZR(123, 1.3)
	if k < 4 {
		r = []ZR{Aniol80, Doelling98, JossWaldvogel70, MarshallPalmer55}[k]
	}
	zzv_Parallel(func() {
		Reflectivity(r, PrecipitationRate(r, v))
		PrecipitationRate(NewZR(300, 1.5), v)
		Reflectivity(NewZR(float64(1001+k), 1.7), float64(v))
	})
}
