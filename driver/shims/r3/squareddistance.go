package r3

func init() {
	vfFuns["squaredDistance"] = func(a, b *Vector, f, g float64) vfRes { return vfN(SquaredDistance(*a, *b)) }
}
