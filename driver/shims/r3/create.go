package r3

func init() {
	vfFuns["create"] = func(a, b *Vector, f, g float64) vfRes { return vfV(createVector(*a, *b)) }
}
