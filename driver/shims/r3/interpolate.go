package r3

func init() {
	vfFuns["interpolate"] = func(a, b *Vector, f, g float64) vfRes { return vfV(Interpolate(a, b, f)) }
}
