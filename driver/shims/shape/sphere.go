package shape

import (
	"encoding/json"

	"geGoMetry/r3"
	vf "@MOD@/zzverif"
)

func init() {
	vf.Register("sphere", func(a json.RawMessage) interface{} {
		q, c := vfArgs(a)
		vf.Warm(func() { vf.Scribble(Sphere{center: c, radius: float64(q.R[0]), sectorCount: q.N, stackCount: q.M}.Construct()) })
		m := Sphere{center: c, radius: float64(q.R[0]), sectorCount: q.N, stackCount: q.M}.Construct()
		Sphere{center: r3.Vector{X: 1, Y: 2, Z: 3}, radius: 2*float64(q.R[0]), sectorCount: q.N, stackCount: q.M}.Construct() // must leave m alone
		return vfMesh(q, c, m)
	})
}
