package r3

func init() {
	vfFuns["add"] = func(a, b *Vector, f, g float64) vfRes { a.Add(*b); return vfRes{} }
}
