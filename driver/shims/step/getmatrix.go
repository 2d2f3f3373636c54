package step

import (
	"encoding/json"

	vf "@MOD@/zzverif"
)

func init() {
	vf.Register("matrix", func(a json.RawMessage) interface{} {
		var q struct {
			Text []int `json:"text"`
		}
		if err := json.Unmarshal(a, &q); err != nil {
			panic("verif: " + err.Error())
		}
		m := [][][]int{}
		vf.Warm(func() { vf.Scribble(getMatrix(vf.Text(q.Text))) })
		rows := getMatrix(vf.Text(q.Text))
		getMatrix("((#9,'y,z'),(#8),(1,2,3,4,5))") // must leave rows alone
		for _, row := range rows {
			r := [][]int{}
			for _, s := range row {
				r = append(r, vf.Bytes(s))
			}
			m = append(m, r)
		}
		return map[string]interface{}{"rows": m}
	})
}
