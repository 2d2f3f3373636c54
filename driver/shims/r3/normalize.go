package r3

func init() {
	vfFuns["normalize"] = func(a, b *Vector, f, g float64) vfRes { return vfV(*a.Normalize()) }
}
