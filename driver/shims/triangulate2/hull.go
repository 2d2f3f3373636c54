package triangulate2

import (
	"encoding/json"

	vf "@MOD@/zzverif"
)

func init() {
	vf.Register("hull", func(a json.RawMessage) interface{} {
		var q struct {
			P [][3]vf.F `json:"p"`
		}
		if err := json.Unmarshal(a, &q); err != nil {
			panic("verif: " + err.Error())
		}
		pts, copy := vfPts(q.P), vfPts(q.P)
		vfWarm(pts, func() interface{} { return ConvexHull(pts) })
		h := ConvexHull(pts)
		ConvexHull(vfOther())
		out := vfOut(h)
		same := vfSamePts(pts, copy)
		for i := range h { // the result is the caller's own
			h[i].X += 1
		}
		return map[string]interface{}{"hull": out, "same": same && vfSamePts(pts, copy)}
	})
}
