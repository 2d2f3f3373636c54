package r3

func init() {
	vfFuns["scale2"] = func(a, b *Vector, f, g float64) vfRes { a.Scale(f).Scale(g); return vfRes{} }
}
