package r3

func init() {
	vfFuns["cross"] = func(a, b *Vector, f, g float64) vfRes { return vfV(Cross(*a, *b)) }
}
