package triangulate3

import (
	"encoding/json"

	vf "@MOD@/zzverif"
)

func init() {
	vf.Register("simplex", func(a json.RawMessage) interface{} {
		q := vfArgs(a)
		pts, copy := vfPts(q.P), vfPts(q.P)
		vfWarm(pts, func() interface{} { return createInitialTetra(pts) })
		t := createInitialTetra(pts)
		createInitialTetra(vfOther())
		return map[string]interface{}{"pts": vfOuts(t), "same": vfSame(pts, copy)}
	})
}
