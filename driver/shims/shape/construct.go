package shape

import (
	"encoding/json"

	"geGoMetry/r3"
	vf "@MOD@/zzverif"
)

func init() {
	vf.Register("Circle", func(a json.RawMessage) interface{} {
		q, c := vfArgs(a)
		vf.Warm(func() { vf.Scribble(ConstructCircle(c, float64(q.R[0]))) })
		m := ConstructCircle(c, float64(q.R[0]))
		ConstructCircle(r3.Vector{X: 1, Y: 2, Z: 3}, 2*float64(q.R[0])) // must leave m alone
		return vfMesh(q, c, m)
	})
	vf.Register("Ellipse", func(a json.RawMessage) interface{} {
		q, c := vfArgs(a)
		vf.Warm(func() { vf.Scribble(ConstructEllipse(c, float64(q.R[0]), float64(q.R[1]))) })
		m := ConstructEllipse(c, float64(q.R[0]), float64(q.R[1]))
		ConstructEllipse(r3.Vector{X: 1, Y: 2, Z: 3}, 2*float64(q.R[0]), 3*float64(q.R[1])) // must leave m alone
		return vfMesh(q, c, m)
	})
	vf.Register("Sphere", func(a json.RawMessage) interface{} {
		q, c := vfArgs(a)
		vf.Warm(func() { vf.Scribble(ConstructSphere(c, float64(q.R[0]))) })
		m := ConstructSphere(c, float64(q.R[0]))
		ConstructSphere(r3.Vector{X: 1, Y: 2, Z: 3}, 2*float64(q.R[0])) // must leave m alone
		return vfMesh(q, c, m)
	})
	vf.Register("Torus", func(a json.RawMessage) interface{} {
		q, c := vfArgs(a)
		vf.Warm(func() { vf.Scribble(ConstructTorus(c, float64(q.R[0]), float64(q.R[1]))) })
		m := ConstructTorus(c, float64(q.R[0]), float64(q.R[1]))
		ConstructTorus(r3.Vector{X: 1, Y: 2, Z: 3}, 2*float64(q.R[0]), 3*float64(q.R[1])) // must leave m alone
		return vfMesh(q, c, m)
	})
}
