package r3

func init() {
	vfFuns["magnitude"] = func(a, b *Vector, f, g float64) vfRes { return vfN(a.Magnitude()) }
}
