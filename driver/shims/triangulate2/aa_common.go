package triangulate2

import (
	"reflect"
	"strconv"

	"geGoMetry/r3"
	vf "@MOD@/zzverif"
)

// points with room behind them, so that writes past the end are seen
func vfPts(p [][3]vf.F) []r3.Vector {
	r := make([]r3.Vector, 0, len(p)+2)
	for _, v := range p {
		r = append(r, r3.Vector{X: float64(v[0]), Y: float64(v[1]), Z: float64(v[2])})
	}
	return r
}

func vfSamePts(a, b []r3.Vector) bool {
	return len(a) == len(b) && reflect.DeepEqual(a[:cap(a)], b[:cap(b)])
}

func vfOut(p []r3.Vector) [][3]string {
	r := [][3]string{}
	f := func(x float64) string { return strconv.FormatFloat(x, 'g', -1, 64) }
	for _, v := range p {
		r = append(r, [3]string{f(v.X), f(v.Y), f(v.Z)})
	}
	return r
}

// other work for the code: what was returned before must stay as it is
func vfOther() []r3.Vector {
	return []r3.Vector{{X: 3, Y: 1, Z: 7}, {X: -2, Y: 5}, {X: 0, Y: -6}, {X: 9, Y: 9}, {X: 4, Y: -1}, {X: -7, Y: -3}, {X: 1, Y: 2}, {X: 8, Y: -5}, {X: -4, Y: 10}}
}

func vfInts(a []int) []int { return append([]int{}, a...) }

// the same points first, then others in the same slice; what comes of it is
// overwritten by the caller
func vfWarm(pts []r3.Vector, f func() interface{}) {
	keep := append([]r3.Vector{}, pts...)
	vf.Warm(func() { vf.Scribble(f()) })
	copy(pts, keep)
	for i := range pts {
		pts[i].X, pts[i].Y = pts[i].Y, -pts[i].X
	}
	vf.Warm(func() { vf.Scribble(f()) })
	copy(pts, keep)
}
