package step

import (
	"encoding/json"

	vf "@MOD@/zzverif"
)

func init() {
	// the text after "KEYWORD(": items, final ')' and ';'
	vf.Register("arguments", func(a json.RawMessage) interface{} {
		var q struct {
			Text []int `json:"text"`
		}
		if err := json.Unmarshal(a, &q); err != nil {
			panic("verif: " + err.Error())
		}
		r := [][]int{}
		vf.Warm(func() { vf.Scribble(getArguments(vf.Text(q.Text))) })
		items := getArguments(vf.Text(q.Text))
		getArguments("'x',(y,'z'),#7,(1,(2,3)),$,*,'',.T.);") // must leave items alone
		for _, s := range items {
			r = append(r, vf.Bytes(s))
		}
		return map[string]interface{}{"items": r}
	})
}
