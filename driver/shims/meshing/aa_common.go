package mesh

import (
	"encoding/json"
	"reflect"
	"strconv"

	"geGoMetry/r3"
	vf "@MOD@/zzverif"
)

type vfP [3]vf.F

func (p vfP) v() r3.Vector { return r3.Vector{X: float64(p[0]), Y: float64(p[1]), Z: float64(p[2])} }

// points with room behind them, so that writes past the end are seen
func vfPts(p []vfP) []r3.Vector {
	r := make([]r3.Vector, 0, len(p)+2)
	for _, v := range p {
		r = append(r, v.v())
	}
	return r
}

func vfSame(a, b []r3.Vector) bool {
	return len(a) == len(b) && reflect.DeepEqual(a[:cap(a)], b[:cap(b)])
}

func vfOut(v r3.Vector) [3]string {
	f := func(x float64) string { return strconv.FormatFloat(x, 'g', -1, 64) }
	return [3]string{f(v.X), f(v.Y), f(v.Z)}
}

func vfOuts(p []r3.Vector) [][3]string {
	r := [][3]string{}
	for _, v := range p {
		r = append(r, vfOut(v))
	}
	return r
}

func vfArgs(a json.RawMessage) (q struct {
	P []vfP    `json:"p"`
	Q vfP      `json:"q"`
	I []uint32 `json:"i"`
}) {
	if err := json.Unmarshal(a, &q); err != nil {
		panic("verif: " + err.Error())
	}
	return
}

// other work for the code: what was returned before must stay as it is
func vfOther() []r3.Vector {
	return []r3.Vector{{X: 3, Y: 1, Z: 7}, {X: -2, Y: 5, Z: 1}, {X: 0.5, Y: -6, Z: -3}, {X: 9, Y: 9, Z: 0.25}, {X: 4, Y: -1, Z: 11}, {X: -7, Y: -3, Z: 2}}
}

// the same points first, then others in the same slice; what comes of it is
// overwritten by the caller
func vfWarm(pts []r3.Vector, f func() interface{}) {
	keep := append([]r3.Vector{}, pts...)
	vf.Warm(func() { vf.Scribble(f()) })
	copy(pts, keep)
	for i := range pts {
		pts[i].X, pts[i].Y = pts[i].Y, -pts[i].X
	}
	vf.Warm(func() { vf.Scribble(f()) })
	copy(pts, keep)
}
