package mesh

import (
	"encoding/json"

	vf "@MOD@/zzverif"
)

func init() {
	vf.Register("reverse", func(a json.RawMessage) interface{} {
		q := vfArgs(a)
		vf.Warm(func() {
			w := append(make([]uint32, 0, 3*len(q.I)), q.I...)
			duplicateInReverse(&w)
			vf.Scribble(w)
		})
		l := append(make([]uint32, 0, len(q.I)+3), q.I...)
		duplicateInReverse(&l)
		return map[string]interface{}{"idx": append([]uint32{}, l...)}
	})
}
