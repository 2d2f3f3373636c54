package mesh

import (
	"encoding/json"

	vf "@MOD@/zzverif"
)

func init() {
	vf.Register("flip14", func(a json.RawMessage) interface{} {
		q := vfArgs(a)
		vf.Warm(func() {
			w := Meshing{vertices: vfPts(q.P), indices: append([]uint32{}, q.I...)}
			w.flip14(q.Q.v())
			vf.Scribble(w.vertices, w.indices)
		})
		m := Meshing{vertices: vfPts(q.P), indices: append([]uint32{}, q.I...)}
		m.flip14(q.Q.v())
		idx := append([]uint32{}, m.indices...)
		o := Meshing{vertices: vfOther()[:4], indices: append([]uint32{}, q.I...)}
		o.flip14(vfOther()[5]) // must leave m alone
		vf.Scribble(o.vertices, o.indices) // another mesh, its owner may do as he likes
		vf.Scribble(append(m.indices, idx...)[len(idx):])
		return map[string]interface{}{"pts": vfOuts(m.vertices), "idx": append([]uint32{}, m.indices...)}
	})
}
