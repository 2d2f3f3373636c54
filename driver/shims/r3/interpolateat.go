package r3

func init() {
	vfFuns["interpolateAt"] = func(a, b *Vector, f, g float64) vfRes { return vfV(a.GetInterpolationVector(*b, f)) }
}
