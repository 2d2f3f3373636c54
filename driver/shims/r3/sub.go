package r3

func init() {
	vfFuns["sub"] = func(a, b *Vector, f, g float64) vfRes { a.Sub(*b); return vfRes{} }
}
