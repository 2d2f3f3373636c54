package nurbs

import (
	"encoding/json"
	vf "@MOD@/zzverif"
)

func init() {
	vf.Register("ders", func(a json.RawMessage) interface{} {
		q := vfArgs(a)
		u, v := vfKnots(q.U), vfKnots(q.U)
		vfWarm(u, func() interface{} { return dersBasisFuns(q.I, int(q.T), q.P, q.K, u) })
		r := vf.Odd(func() func() interface{} {
			d := dersBasisFuns(q.I, int(q.T), q.P, q.K, u)
			return func() interface{} {
				r := [][]string{}
				for _, x := range d {
					r = append(r, vfStr(x))
				}
				return r
			}
		}, func() {
			dersBasisFuns(4, 1, 4, 3, []int{0, 0, 0, 0, 0, 2, 3, 3, 3, 3, 3})
		}, func() {
			dersBasisFuns(q.I, q.U[q.I], q.P, q.K, u)
		}, func() {
			dersBasisFuns(q.I, q.U[q.I+1], q.P, q.K, u)
		}, func() {
			if q.K > 0 {
				dersBasisFuns(q.I, int(q.T), q.P, q.K-1, u)
			}
		})
		return map[string]interface{}{"D": r, "same": vfSame(u, v)}
	})
}
