package predicates

import (
	"encoding/json"

	vf "@MOD@/zzverif"
)

func init() {
	vf.Register("bounded", func(a json.RawMessage) interface{} {
		q := vfArgs(a)
		sgn := func(x float64) int {
			switch {
			case x > 0:
				return 1
			case x < 0:
				return -1
			case x == 0:
				return 0
			}
			return 9
		}
		va, b, c, d, e := q.P[0].v(), q.P[1].v(), q.P[2].v(), q.P[3].v(), q.Q.v()
		return map[string]interface{}{"r": sgn(inSphere(va.X, va.Y, va.Z, b.X, b.Y, b.Z, c.X, c.Y, c.Z, d.X, d.Y, d.Z, e.X, e.Y, e.Z))}
	})
}
