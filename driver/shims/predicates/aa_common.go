package predicates

import (
	"encoding/json"
	"reflect"
	"strconv"

	"geGoMetry/r3"
	vf "@MOD@/zzverif"
)

type vfP [3]vf.F

func (p vfP) v() r3.Vector { return r3.Vector{X: float64(p[0]), Y: float64(p[1]), Z: float64(p[2])} }

// points with room behind them, so that writes past the end are seen
func vfPts(p []vfP) []r3.Vector {
	r := make([]r3.Vector, 0, len(p)+2)
	for _, v := range p {
		r = append(r, v.v())
	}
	return r
}

func vfSame(a, b []r3.Vector) bool {
	return len(a) == len(b) && reflect.DeepEqual(a[:cap(a)], b[:cap(b)])
}

func vfOut(v r3.Vector) [3]string {
	f := func(x float64) string { return strconv.FormatFloat(x, 'g', -1, 64) }
	return [3]string{f(v.X), f(v.Y), f(v.Z)}
}

func vfOuts(p []r3.Vector) [][3]string {
	r := [][3]string{}
	for _, v := range p {
		r = append(r, vfOut(v))
	}
	return r
}

func vfArgs(a json.RawMessage) (q struct {
	P []vfP    `json:"p"`
	Q vfP      `json:"q"`
	I []uint32 `json:"i"`
}) {
	if err := json.Unmarshal(a, &q); err != nil {
		panic("verif: " + err.Error())
	}
	return
}
