package triangulate3

import (
	"encoding/json"

	vf "@MOD@/zzverif"
)

func init() {
	vf.Register("englobe", func(a json.RawMessage) interface{} {
		q := vfArgs(a)
		pts, copy := vfPts(q.P), vfPts(q.P)
		vfWarm(pts, func() interface{} { return constructEnglobingTetra(pts) })
		m := constructEnglobingTetra(pts)
		constructEnglobingTetra(vfOther())
		return map[string]interface{}{"pts": vfOuts(m.Vertices), "same": vfSame(pts, copy), "idx": append([]uint32{}, m.Indices...)}
	})
}
