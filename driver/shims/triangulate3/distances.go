package triangulate3

import (
	"encoding/json"
	"geGoMetry/r3"
	vf "@MOD@/zzverif"
)

func init() {
	vf.Register("distances", func(a json.RawMessage) interface{} {
		q := vfArgs(a)
		va, vb, vc, vd := q.P[0].v(), q.P[1].v(), q.P[2].v(), q.P[3].v()
		return map[string]interface{}{"r": vfOut(r3.Vector{X: Get2Ddist(va, vb, vc), Y: Get3Ddist(va, vb, vc, vd)})}
	})
}
