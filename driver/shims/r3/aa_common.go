package r3

import (
	"encoding/json"
	"strconv"

	vf "@MOD@/zzverif"
)

type vfP [3]vf.F

func (p vfP) v() Vector { return Vector{X: float64(p[0]), Y: float64(p[1]), Z: float64(p[2])} }

func vfStr(x ...float64) []string {
	r := []string{}
	for _, v := range x {
		r = append(r, strconv.FormatFloat(v, 'g', -1, 64))
	}
	return r
}

func vfVec(v Vector) []string { return vfStr(v.X, v.Y, v.Z) }

// what an operation returned
type vfRes struct {
	vec *Vector
	num []float64
	yes bool
}

type vfFun func(a, b *Vector, f, g float64) vfRes

var vfFuns = map[string]vfFun{}

func vfV(v Vector) vfRes  { return vfRes{vec: &v} }
func vfN(x float64) vfRes { return vfRes{num: []float64{x}} }

type vfStep struct {
	Op  string `json:"op"`
	I   int    `json:"i"`
	J   int    `json:"j"`
	F   vf.F   `json:"f"`
	G   vf.F   `json:"g"`
	Dst int    `json:"dst"`
}

// Register numbers count from 1; the one after the last is the package's Zero.
func init() {
	vf.Register("history", func(a json.RawMessage) interface{} {
		var q struct {
			Regs  []vfP    `json:"regs"`
			Steps []vfStep `json:"steps"`
		}
		if err := json.Unmarshal(a, &q); err != nil {
			panic("verif: " + err.Error())
		}
		regs := make([]Vector, len(q.Regs))
		for i, p := range q.Regs {
			regs[i] = p.v()
		}
		if Zero != (Vector{}) {
			Zero = Vector{}
		}
		at := func(i int) *Vector {
			if i == len(regs)+1 {
				return &Zero
			}
			return &regs[i-1]
		}
		out := []interface{}{}
		for _, s := range q.Steps {
			f, found := vfFuns[s.Op]
			if !found {
				out = append(out, nil)
				continue
			}
			r := f(at(s.I), at(s.J), float64(s.F), float64(s.G))
			res := []string{}
			if r.vec != nil {
				res = vfVec(*r.vec)
				if s.Dst > 0 {
					regs[s.Dst-1] = *r.vec
				}
			} else {
				res = vfStr(r.num...)
			}
			all := [][]string{}
			for i := 1; i <= len(regs)+1; i++ {
				all = append(all, vfVec(*at(i)))
			}
			out = append(out, map[string]interface{}{"regs": all, "res": res, "yes": r.yes})
		}
		return out
	})
}
