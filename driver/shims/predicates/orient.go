package predicates

import (
	"encoding/json"

	vf "@MOD@/zzverif"
)

func init() {
	vf.Register("orient", func(a json.RawMessage) interface{} {
		q := vfArgs(a)
		sgn := func(x float64) int {
			switch {
			case x > 0:
				return 1
			case x < 0:
				return -1
			case x == 0:
				return 0
			}
			return 9
		}
		return map[string]interface{}{"r": sgn(orient3dfast(q.P[0].v(), q.P[1].v(), q.P[2].v(), q.P[3].v()))}
	})
}
