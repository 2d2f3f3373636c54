package triangulate3

import (
	"encoding/json"
	"geGoMetry/r3"
	vf "@MOD@/zzverif"
)

func init() {
	vf.Register("extents", func(a json.RawMessage) interface{} {
		q := vfArgs(a)
		pts, copy := vfPts(q.P), vfPts(q.P)
		vfWarm(pts, func() interface{} { lo, hi := computeBoundingBoxForVectors(pts); return []r3.Vector{lo, hi} })
		lo, hi := computeBoundingBoxForVectors(pts)
		return map[string]interface{}{"r": vfOuts([]r3.Vector{lo, hi}), "same": vfSame(pts, copy)}
	})
}
