package vis

// zzvC32Gradient shares a gradient.
//
//gosym:job C32 race a=0..10
func zzvC32Gradient() {
	k := zzv_Param("a")
	fn := zzvGradient(k)
	v, w := zzvValue("v"), zzvValue("w")
	zzv_Parallel(func() {
		fn(v)
		fn(w)
	})
	zzv_Parallel(func() { zzvGradient(k)(v) })
}

// zzvC32Image shares a composite and a gradient.
//
//gosym:job C32 race k=0..10 dx=2 dy=2
func zzvC32Image() {
	c := zzvSmall("c", zzv_Param("dx"), zzv_Param("dy"))
	fn := zzvGradient(zzv_Param("k"))
	layer := zzv_Int("layer", -2, 2)
	zzv_Parallel(func() { Image(fn, c, layer) })
}
