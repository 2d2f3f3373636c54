package step

import (
	"encoding/json"
	"reflect"

	vf "@MOD@/zzverif"
)

func init() {
	vf.Register("array", func(a json.RawMessage) interface{} {
		var q struct {
			Text []int `json:"text"`
		}
		if err := json.Unmarshal(a, &q); err != nil {
			panic("verif: " + err.Error())
		}
		r := [][]int{}
		vf.Warm(func() { vf.Scribble(getArray(vf.Text(q.Text), reflect.Float64)) })
		items := getArray(vf.Text(q.Text), reflect.Float64)
		getArray("('x',(y,'z'),#7,(1,(2,3)),$,*,'',.T.)", reflect.Float64) // must leave items alone
		for _, s := range items {
			r = append(r, vf.Bytes(s))
		}
		return map[string]interface{}{"items": r}
	})
}
