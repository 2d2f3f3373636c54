package r3

import (
	vf "@MOD@/zzverif"
	"encoding/json"
)

func init() {
	vf.Register("meet", func(a json.RawMessage) interface{} {
		var q struct{ P, D, O, N vfP }
		if err := json.Unmarshal(a, &q); err != nil {
			panic("verif: " + err.Error())
		}
		return vfVec(Line{Vector: q.P.v(), Direction: q.D.v()}.IntersectPlane(Plane3D{Normal: q.N.v(), Vector: q.O.v()}))
	})
}
