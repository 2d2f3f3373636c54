package r3

func init() {
	vfFuns["isUnit"] = func(a, b *Vector, f, g float64) vfRes { return vfRes{yes: a.IsUnit()} }
}
