package r3

func init() {
	vfFuns["normalizeOf"] = func(a, b *Vector, f, g float64) vfRes { return vfV(Normalize(*a)) }
}
