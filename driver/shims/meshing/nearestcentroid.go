package mesh

import (
	"encoding/json"
	"geGoMetry/r3"
	vf "@MOD@/zzverif"
)

func init() {
	vf.Register("nearestToCentroid", func(a json.RawMessage) interface{} {
		q := vfArgs(a)
		pts, copy := vfPts(q.P), vfPts(q.P)
		t := tetra{ia: int(q.I[0]), ib: int(q.I[1]), ic: int(q.I[2]), id: int(q.I[3])}
		vfWarm(pts, func() interface{} { return t.getNearestPointToCentroid(pts) })
		return map[string]interface{}{"r": vfOuts([]r3.Vector{t.getNearestPointToCentroid(pts)}), "same": vfSame(pts, copy)}
	})
}
