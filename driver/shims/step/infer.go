package step

import (
	"encoding/json"

	vf "@MOD@/zzverif"
)

func init() {
	// runs the inference loop over a graph of states: handling key k queues
	// the keys next[k] in order. Events record every invocation of a handler
	// and the start of every root.
	vf.Register("infer", func(a json.RawMessage) interface{} {
		var q struct {
			Next  map[string][]string `json:"next"`
			Roots []string            `json:"roots"`
		}
		if err := json.Unmarshal(a, &q); err != nil {
			panic("verif: " + err.Error())
		}
		p := Parser{lexemes: SymbolTable{}, visited: make(map[string]struct{})}
		for k := range q.Next {
			p.lexemes[k] = Definition{}
		}
		events := [][2]string{}
		var fn parseFn
		fn = func(key string) {
			if len(events) > 100000 {
				panic("too many invocations")
			}
			events = append(events, [2]string{"handle", key})
			for _, n := range q.Next[key] {
				p.nextStates = append(p.nextStates, parseState{fn: fn, key: n})
			}
		}
		for _, r := range q.Roots {
			events = append(events, [2]string{"root", r})
			p.runInferenceModel(parseState{fn: fn, key: r})
		}
		return map[string]interface{}{"events": events, "left": len(p.nextStates)}
	})
}
