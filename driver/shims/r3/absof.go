package r3

func init() {
	vfFuns["absOf"] = func(a, b *Vector, f, g float64) vfRes { return vfV(Abs(*a)) }
}
