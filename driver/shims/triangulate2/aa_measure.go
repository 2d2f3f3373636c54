package triangulate2

import (
	"encoding/json"
	"strconv"

	"geGoMetry/r3"
	vf "@MOD@/zzverif"
)

// a measure of points: called after other work, and again
func vfMeasure(name string, f func(p []r3.Vector) []float64) {
	vf.Register(name, func(a json.RawMessage) interface{} {
		var q struct {
			P [][3]vf.F `json:"p"`
		}
		if err := json.Unmarshal(a, &q); err != nil {
			panic("verif: " + err.Error())
		}
		pts, copy := vfPts(q.P), vfPts(q.P)
		call := func() func() interface{} {
			r := []string{}
			for _, x := range f(pts) {
				r = append(r, strconv.FormatFloat(x, 'g', -1, 64))
			}
			return func() interface{} { return r }
		}
		vfWarm(pts, func() interface{} { return f(pts) })
		r := vf.Odd(call, func() { f(vfOther()) })
		return map[string]interface{}{"v": r, "same": vfSamePts(pts, copy)}
	})
}
