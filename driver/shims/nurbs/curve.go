package nurbs

import (
	"encoding/json"
	vf "@MOD@/zzverif"
	"reflect"

	"github.com/ungerik/go3d/float64/vec3"
)

func init() {
	vf.Register("curve", func(a json.RawMessage) interface{} {
		q := vfArgs(a)
		u, v := vfKnots(q.U), vfKnots(q.U)
		mk := func() []vec3.T {
			r := make([]vec3.T, 0, len(q.C)+2)
			for _, c := range q.C {
				r = append(r, vec3.T{float64(c[0]), float64(c[1]), float64(c[2])})
			}
			return r
		}
		c, d := mk(), mk()
		vfWarm(u, func() interface{} { return curvePoint(q.N, q.P, u, c, float64(q.T)) })
		for i := range c {
			c[i] = vec3.T{c[i][1], -c[i][0], 5}
		}
		vf.Warm(func() { curvePoint(q.N, q.P, u, c, float64(q.T)) })
		copy(c, d)
		r := vfOdd(q, func(x float64) func() interface{} {
			p := curvePoint(q.N, q.P, u, c, x)
			return func() interface{} { return vfStr(p[:]) }
		})
		return map[string]interface{}{"C": r, "same": vfSame(u, v) && reflect.DeepEqual(c[:cap(c)], d[:cap(d)])}
	})
}
