package mesh

import (
	"encoding/json"
	"geGoMetry/r3"
	vf "@MOD@/zzverif"
)

func init() {
	vf.Register("extents", func(a json.RawMessage) interface{} {
		q := vfArgs(a)
		pts, copy := vfPts(q.P), vfPts(q.P)
		vfWarm(pts, func() interface{} { h := helper{}; h.findExtremas(pts...); return 0 })
		h := helper{}
		h.findExtremas(pts...)
		return map[string]interface{}{"r": vfOuts([]r3.Vector{h.min, h.max}), "same": vfSame(pts, copy)}
	})
}
