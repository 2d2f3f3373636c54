package r3

func init() {
	vfFuns["subOf"] = func(a, b *Vector, f, g float64) vfRes { return vfV(Sub(*a, *b)) }
}
