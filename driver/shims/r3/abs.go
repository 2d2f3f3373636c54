package r3

func init() {
	vfFuns["abs"] = func(a, b *Vector, f, g float64) vfRes { a.Abs(); return vfRes{} }
}
