package nurbs

import (
	"encoding/json"
	vf "@MOD@/zzverif"
)

func init() {
	vf.Register("basis", func(a json.RawMessage) interface{} {
		q := vfArgs(a)
		u, v := vfKnots(q.U), vfKnots(q.U)
		vfWarm(u, func() interface{} { return basisFuns(q.I, float64(q.T), q.P, u) })
		r := vfOdd(q, func(x float64) func() interface{} {
			n := basisFuns(q.I, x, q.P, u)
			return func() interface{} { return vfStr(n) }
		}, func() {
			basisFuns(4, 1.5, 4, []int{0, 0, 0, 0, 0, 2, 3, 3, 3, 3, 3})
		})
		return map[string]interface{}{"N": r, "same": vfSame(u, v)}
	})
}
