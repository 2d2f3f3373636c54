package mesh

import (
	"encoding/json"
	"geGoMetry/r3"
	vf "@MOD@/zzverif"
)

func init() {
	vf.Register("nearest", func(a json.RawMessage) interface{} {
		q := vfArgs(a)
		pts, copy := vfPts(q.P), vfPts(q.P)
		vfWarm(pts, func() interface{} { return getNearestPoint(pts, q.Q.v()) })
		return map[string]interface{}{"r": vfOuts([]r3.Vector{getNearestPoint(pts, q.Q.v())}), "same": vfSame(pts, copy)}
	})
}
