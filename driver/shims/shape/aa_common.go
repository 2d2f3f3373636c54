package shape

import (
	"encoding/json"
	"fmt"
	"math"
	"math/big"

	"geGoMetry/r3"
	vf "@MOD@/zzverif"
)

type vfShape struct {
	C    [3]vf.F `json:"c"`
	R    [2]vf.F `json:"r"` // radius / semi axes / ring and tube radius
	N, M int
	Want string `json:"want"` // index, position, normal
	Unit [3]vf.F `json:"unit"`
}

func vfArgs(a json.RawMessage) (q vfShape, c r3.Vector) {
	if err := json.Unmarshal(a, &q); err != nil {
		panic("verif: " + err.Error())
	}
	return q, r3.Vector{X: float64(q.C[0]), Y: float64(q.C[1]), Z: float64(q.C[2])}
}

func vfNum(x, c, unit float64) []int {
	if math.IsNaN(x) || math.IsInf(x, 0) {
		panic(fmt.Sprint("coordinate not finite: ", x))
	}
	d := new(big.Float).SetPrec(2200).Sub(new(big.Float).SetPrec(2200).SetFloat64(x), new(big.Float).SetPrec(2200).SetFloat64(c))
	d.Quo(d, new(big.Float).SetFloat64(unit))
	d.SetMantExp(d, 40)
	h := big.NewFloat(0.5)
	if d.Sign() < 0 {
		h.Neg(h)
	}
	i, _ := d.Add(d, h).Int(nil)
	return vf.Big(i)
}

func vfTriple(v, c r3.Vector, u [3]vf.F) [][]int {
	return [][]int{vfNum(v.X, c.X, float64(u[0])), vfNum(v.Y, c.Y, float64(u[1])), vfNum(v.Z, c.Z, float64(u[2]))}
}

// vfWeld names locations: vertices closer than tol share one.
func vfWeld(vs []r3.Vector, tol float64) []int {
	type cell [3]int64
	at := map[cell][]int{}
	loc := make([]int, len(vs))
	rep := []r3.Vector{}
	size := 4 * tol
	for i, v := range vs {
		k := cell{int64(math.Floor(v.X / size)), int64(math.Floor(v.Y / size)), int64(math.Floor(v.Z / size))}
		loc[i] = -1
	search:
		for dx := int64(-1); dx <= 1; dx++ {
			for dy := int64(-1); dy <= 1; dy++ {
				for dz := int64(-1); dz <= 1; dz++ {
					for _, l := range at[cell{k[0] + dx, k[1] + dy, k[2] + dz}] {
						w := rep[l]
						if math.Abs(w.X-v.X) <= tol && math.Abs(w.Y-v.Y) <= tol && math.Abs(w.Z-v.Z) <= tol {
							loc[i] = l
							break search
						}
					}
				}
			}
		}
		if loc[i] < 0 {
			loc[i] = len(rep)
			rep = append(rep, v)
			at[k] = append(at[k], loc[i])
		}
	}
	return loc
}

func vfMesh(q vfShape, c r3.Vector, m Mesh) interface{} {
	out := map[string]interface{}{"nv": len(m.Vertices)}
	if q.Want != "index" {
		p := [][][]int{}
		for _, v := range m.Vertices {
			p = append(p, vfTriple(v, c, q.Unit))
		}
		out["P"] = p
	}
	if q.Want == "index" || q.Want == "surface" {
		idx := []int{}
		for _, i := range m.Indices {
			if i > 1<<30 {
				i = 1 << 30
			}
			idx = append(idx, int(i))
		}
		out["idx"] = idx
		scale, big := math.Max(float64(q.Unit[0]), float64(q.Unit[1])), 0.
		scale = math.Min(scale, math.Min(float64(q.Unit[0]), float64(q.Unit[1])))
		local := make([]r3.Vector, len(m.Vertices))
		for i, v := range m.Vertices {
			local[i] = r3.Vector{X: v.X - c.X, Y: v.Y - c.Y, Z: v.Z - c.Z}
			big = math.Max(big, math.Max(math.Abs(v.X), math.Max(math.Abs(v.Y), math.Abs(v.Z))))
		}
		out["loc"] = vfWeld(local, 1e-9*scale+big*4e-15)
	}
	if q.Want == "normal" {
		ns, ts := [][][]int{}, [][][]int{}
		for _, n := range m.Normals {
			ns = append(ns, [][]int{vfNum(n[0], 0, 1), vfNum(n[1], 0, 1), vfNum(n[2], 0, 1)})
		}
		for _, t := range m.TexCoords {
			ts = append(ts, [][]int{vfNum(t[0], 0, 1), vfNum(t[1], 0, 1)})
		}
		out["normals"], out["tex"] = ns, ts
	}
	// length of the first ring, as told by the texture coordinates
	ring := 0
	for ring < len(m.TexCoords) && m.TexCoords[ring][1] == m.TexCoords[0][1] {
		ring++
	}
	out["ring"] = ring
	return out
}
