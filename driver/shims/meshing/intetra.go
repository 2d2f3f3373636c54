package mesh

import (
	"encoding/json"

	vf "@MOD@/zzverif"
)

func init() {
	vf.Register("inTetra", func(a json.RawMessage) interface{} {
		q := vfArgs(a)
		return map[string]interface{}{"r": vectorInTetrahedron(q.P[0].v(), q.P[1].v(), q.P[2].v(), q.P[3].v(), q.Q.v())}
	})
}
