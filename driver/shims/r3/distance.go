package r3

func init() {
	vfFuns["distance"] = func(a, b *Vector, f, g float64) vfRes { return vfN(Distance(*a, *b)) }
}
