package r3

func init() {
	vfFuns["scaled"] = func(a, b *Vector, f, g float64) vfRes { return vfV(a.Scaled(f)) }
}
