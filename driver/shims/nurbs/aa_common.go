package nurbs

import (
	"encoding/json"
	"reflect"
	"strconv"

	vf "@MOD@/zzverif"
)

type vfReq struct {
	N int       `json:"n"`
	P int       `json:"p"`
	I int       `json:"i"`
	K int       `json:"k"`
	U []int     `json:"U"`
	T vf.F      `json:"u"`
	C [][3]vf.F `json:"c"`
}

func vfArgs(a json.RawMessage) (q vfReq) {
	if err := json.Unmarshal(a, &q); err != nil {
		panic("verif: " + err.Error())
	}
	return
}

// knots with room behind them, so that writes past the end are seen
func vfKnots(u []int) []int { return append(make([]int, 0, len(u)+3), u...) }

func vfSame(a, b []int) bool {
	return len(a) == len(b) && reflect.DeepEqual(a[:cap(a)], b[:cap(b)])
}

func vfStr(x []float64) []string {
	r := []string{}
	for _, v := range x {
		r = append(r, strconv.FormatFloat(v, 'g', -1, 64))
	}
	return r
}

// the same knots first, then others in the same slice; what comes of it is
// overwritten by the caller
func vfWarm(u []int, f func() interface{}) {
	keep := append([]int{}, u...)
	vf.Warm(func() { vf.Scribble(f()) })
	copy(u, keep)
	for i := range u {
		u[i] = 3*keep[i] - 2*keep[0]
	}
	vf.Warm(func() { vf.Scribble(f()) })
	copy(u, keep)
}

// other parameters of the same curve: after and before this one, close to it
// and at the ends
func vfParams(q vfReq) []float64 {
	u, lo, hi := float64(q.T), float64(q.U[q.P]), float64(q.U[q.N+1])
	return []float64{u + (hi-u)/64, u - (u-lo)/64, hi, lo, (lo + hi) / 2, u + (hi-u)/2}
}

func vfOdd(q vfReq, call func(u float64) func() interface{}, other ...func()) interface{} {
	for _, x := range vfParams(q) {
		y := x
		other = append(other, func() { call(y) })
	}
	return vf.Odd(func() func() interface{} { return call(float64(q.T)) }, other...)
}
