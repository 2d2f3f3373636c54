package mesh

import (
	"encoding/json"

	vf "@MOD@/zzverif"
)

func init() {
	vf.Register("englobe", func(a json.RawMessage) interface{} {
		q := vfArgs(a)
		pts, copy := vfPts(q.P), vfPts(q.P)
		vf.Warm(func() {
			w := vfPts(q.P)
			vf.Scribble(englobe(&w), w)
		})
		in := pts
		t := englobe(&pts)
		other := vfOther()
		englobe(&other)
		return map[string]interface{}{"pts": vfOuts(pts), "same": vfSame(in, copy), "tet": []int{t.ia, t.ib, t.ic, t.id}}
	})
}
