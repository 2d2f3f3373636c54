package mesh

import (
	"encoding/json"

	vf "@MOD@/zzverif"
)

func init() {
	vf.Register("bowyerWatson", func(a json.RawMessage) interface{} {
		q := vfArgs(a)
		pts, copy := vfPts(q.P), vfPts(q.P)
		if len(pts) < 12 {
			vfWarm(pts, func() interface{} { return bowyerWatson(pts...) })
		}
		r := bowyerWatson(pts...)
		bowyerWatson(vfOther()...)
		return map[string]interface{}{"idx": append([]int{}, r...), "same": vfSame(pts, copy)}
	})
}
