package r3

func init() {
	vfFuns["addOf"] = func(a, b *Vector, f, g float64) vfRes { return vfV(Add(*a, *b)) }
}
