package triangulate3

import (
	"encoding/json"
	"geGoMetry/r3"
	vf "@MOD@/zzverif"
)

func init() {
	vf.Register("centroid", func(a json.RawMessage) interface{} {
		q := vfArgs(a)
		return map[string]interface{}{"r": vfOuts([]r3.Vector{findCentroid(q.P[0].v(), q.P[1].v(), q.P[2].v(), q.P[3].v())}), "same": true}
	})
}
