package step

import (
	"encoding/json"

	vf "@MOD@/zzverif"
)

func init() {
	// parses a table and returns what was printed
	vf.Register("parse", func(a json.RawMessage) interface{} {
		var q struct {
			Table []vfParseInst `json:"table"`
		}
		if err := json.Unmarshal(a, &q); err != nil {
			panic("verif: " + err.Error())
		}
		t := SymbolTable{}
		for _, in := range q.Table {
			d := Definition{Type: vf.Text(in.Type)}
			for _, x := range in.Args {
				d.Arguments = append(d.Arguments, vf.Text(x))
			}
			t[vf.Text(in.Name)] = d
		}
		vf.ResetStdout()
		Parse(t)
		return map[string]interface{}{"out": vf.Bytes(string(vf.Stdout()))}
	})
}

type vfParseInst struct {
	Name []int   `json:"name"`
	Type []int   `json:"type"`
	Args [][]int `json:"args"`
}
