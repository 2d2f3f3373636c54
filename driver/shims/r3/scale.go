package r3

func init() {
	vfFuns["scale"] = func(a, b *Vector, f, g float64) vfRes { return vfV(*a.Scale(f)) }
}
