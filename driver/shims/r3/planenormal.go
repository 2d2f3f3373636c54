package r3

import (
	vf "@MOD@/zzverif"
	"encoding/json"
)

func init() {
	vf.Register("planeNormal", func(a json.RawMessage) interface{} {
		var q struct{ A, B, C, N vfP }
		if err := json.Unmarshal(a, &q); err != nil {
			panic("verif: " + err.Error())
		}
		return vfVec(newPlane(q.N.v(), q.A.v()).calculateNormal(q.A.v(), q.B.v(), q.C.v()))
	})
}
