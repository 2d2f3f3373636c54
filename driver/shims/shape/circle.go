package shape

import (
	"encoding/json"

	"geGoMetry/r3"
	vf "@MOD@/zzverif"
)

func init() {
	vf.Register("circle", func(a json.RawMessage) interface{} {
		q, c := vfArgs(a)
		vf.Warm(func() { vf.Scribble(Circle{center: c, radius: float64(q.R[0]), sectorCount: q.N}.Construct()) })
		m := Circle{center: c, radius: float64(q.R[0]), sectorCount: q.N}.Construct()
		Circle{center: r3.Vector{X: 1, Y: 2, Z: 3}, radius: 2*float64(q.R[0]), sectorCount: q.N}.Construct() // must leave m alone
		return vfMesh(q, c, m)
	})
}
