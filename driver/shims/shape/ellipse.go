package shape

import (
	"encoding/json"

	"geGoMetry/r3"
	vf "@MOD@/zzverif"
)

func init() {
	vf.Register("ellipse", func(a json.RawMessage) interface{} {
		q, c := vfArgs(a)
		vf.Warm(func() { vf.Scribble(Ellipse{center: c, semiAxis1: float64(q.R[0]), semiAxis2: float64(q.R[1]), sectorCount: q.N}.Construct()) })
		m := Ellipse{center: c, semiAxis1: float64(q.R[0]), semiAxis2: float64(q.R[1]), sectorCount: q.N}.Construct()
		Ellipse{center: r3.Vector{X: 1, Y: 2, Z: 3}, semiAxis1: 2*float64(q.R[0]), semiAxis2: 3*float64(q.R[1]), sectorCount: q.N}.Construct() // must leave m alone
		return vfMesh(q, c, m)
	})
}
