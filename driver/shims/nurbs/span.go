package nurbs

import (
	"encoding/json"
	vf "@MOD@/zzverif"
)

func init() {
	vf.Register("span", func(a json.RawMessage) interface{} {
		q := vfArgs(a)
		u, v := vfKnots(q.U), vfKnots(q.U)
		vfWarm(u, func() interface{} { return findSpan(q.N, q.P, float64(q.T), u) })
		r := vfOdd(q, func(x float64) func() interface{} {
			s := findSpan(q.N, q.P, x, u)
			return func() interface{} { return s }
		})
		return map[string]interface{}{"s": r, "same": vfSame(u, v)}
	})
}
