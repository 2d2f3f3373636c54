package r3

func init() {
	vfFuns["dot"] = func(a, b *Vector, f, g float64) vfRes { return vfN(Dot(*a, *b)) }
}
