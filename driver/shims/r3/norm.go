package r3

func init() {
	vfFuns["norm"] = func(a, b *Vector, f, g float64) vfRes { return vfN(a.Norm()) }
}
