package step

import (
	"encoding/json"
	"os"
	"sync"

	vf "@MOD@/zzverif"
)

type vfInst struct {
	Name []int   `json:"name"`
	Type []int   `json:"type"`
	Args [][]int `json:"args"`
}

func vfTable(t SymbolTable) []vfInst {
	r := []vfInst{}
	for k, d := range t {
		in := vfInst{vf.Bytes(k), vf.Bytes(d.Type), [][]int{}}
		for _, a := range d.Arguments {
			in.Args = append(in.Args, vf.Bytes(a))
		}
		r = append(r, in)
	}
	return r
}

var vfOther string
var vfOtherOnce sync.Once

func vfOtherFile() string {
	vfOtherOnce.Do(func() {
		vfOther = os.Getenv("VERIF_SCRATCH") + "/other.stp"
		if err := os.WriteFile(vfOther, []byte("HEADER;\nENDSEC;\nDATA;\n#1=OTHER('x',(1,2),#2);\n#2=ANOTHER('y');\nENDSEC;\n"), 0644); err != nil {
			panic("verif: " + err.Error())
		}
	})
	return vfOther
}

func init() {
	// reads a file with the given lines (joined by eol; the last line gets
	// one too when final is set), or the file named by path
	vf.Register("lex", func(a json.RawMessage) interface{} {
		var q struct {
			Lines [][]int `json:"lines"`
			EOL   []int   `json:"eol"`
			Final bool    `json:"final"`
			Path  string  `json:"path"`
		}
		if err := json.Unmarshal(a, &q); err != nil {
			panic("verif: " + err.Error())
		}
		path := q.Path
		if path == "" {
			text := []byte{}
			for i, l := range q.Lines {
				text = append(text, vf.Text(l)...)
				if i < len(q.Lines)-1 || q.Final {
					text = append(text, vf.Text(q.EOL)...)
				}
			}
			f, err := os.CreateTemp(os.Getenv("VERIF_SCRATCH"), "step")
			if err != nil {
				panic("verif: " + err.Error())
			}
			f.Write(text)
			f.Close()
			path = f.Name()
			defer os.Remove(path)
		}
		if q.Path == "" && len(q.Lines) < 12 {
			vf.Warm(func() {
				l := initLexer(path)
				vf.Scribble(l.Lex())
			})
		}
		l := initLexer(path)
		t := l.Lex()
		if q.Path == "" && len(q.Lines) < 12 {
			vf.Warm(func() {
				o := initLexer(vfOtherFile())
				o.Lex() // must leave t alone
			})
		}
		return map[string]interface{}{"table": vfTable(t)}
	})
}
