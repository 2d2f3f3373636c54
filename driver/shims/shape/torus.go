package shape

import (
	"encoding/json"

	"geGoMetry/r3"
	vf "@MOD@/zzverif"
)

func init() {
	vf.Register("torus", func(a json.RawMessage) interface{} {
		q, c := vfArgs(a)
		vf.Warm(func() { vf.Scribble(Torus{center: c, radius: float64(q.R[0]), tubeRadius: float64(q.R[1]), sectorCount: q.N, stackCount: q.M}.Construct()) })
		m := Torus{center: c, radius: float64(q.R[0]), tubeRadius: float64(q.R[1]), sectorCount: q.N, stackCount: q.M}.Construct()
		Torus{center: r3.Vector{X: 1, Y: 2, Z: 3}, radius: 2*float64(q.R[0]), tubeRadius: 3*float64(q.R[1]), sectorCount: q.N, stackCount: q.M}.Construct() // must leave m alone
		return vfMesh(q, c, m)
	})
}
