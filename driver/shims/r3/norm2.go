package r3

func init() {
	vfFuns["norm2"] = func(a, b *Vector, f, g float64) vfRes { return vfN(a.Norm2()) }
}
