package r3

func init() {
	vfFuns["det2"] = func(a, b *Vector, f, g float64) vfRes { return vfN(det2D(*a, *b)) }
}
