package r3

func init() {
	vfFuns["squaredMagnitude"] = func(a, b *Vector, f, g float64) vfRes { return vfN(a.SquaredMagnitude()) }
}
