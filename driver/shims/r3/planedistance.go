package r3

import (
	vf "@MOD@/zzverif"
	"encoding/json"
)

func init() {
	vf.Register("planeDistance", func(a json.RawMessage) interface{} {
		var q struct{ N, O, Q vfP }
		if err := json.Unmarshal(a, &q); err != nil {
			panic("verif: " + err.Error())
		}
		p := newPlane(q.N.v(), q.O.v())
		return vfStr(q.O.v().CalculateDistanceToPlane(p), q.Q.v().CalculateDistanceToPlane(p))
	})
}
