package step

import (
	"encoding/json"
	"os"

	vf "@MOD@/zzverif"
)

func init() {
	// reads a file and parses what was read; returns what was printed
	vf.Register("readparse", func(a json.RawMessage) interface{} {
		var q struct {
			Lines [][]int `json:"lines"`
			EOL   []int   `json:"eol"`
		}
		if err := json.Unmarshal(a, &q); err != nil {
			panic("verif: " + err.Error())
		}
		text := ""
		for _, l := range q.Lines {
			text += vf.Text(l) + vf.Text(q.EOL)
		}
		f, err := os.CreateTemp(os.Getenv("VERIF_SCRATCH"), "step")
		if err != nil {
			panic("verif: " + err.Error())
		}
		f.WriteString(text)
		f.Close()
		defer os.Remove(f.Name())
		l := initLexer(f.Name())
		t := l.Lex()
		vf.ResetStdout()
		Parse(t)
		return map[string]interface{}{"out": vf.Bytes(string(vf.Stdout()))}
	})
}
