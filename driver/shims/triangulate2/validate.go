package triangulate2

import (
	"encoding/json"
	"reflect"

	"geGoMetry/r3"
	vf "@MOD@/zzverif"
)

func init() {
	// triangulates, applies the changes, validates
	vf.Register("validate", func(a json.RawMessage) interface{} {
		var q struct {
			P       [][3]vf.F `json:"p"`
			Changes []struct {
				What string    `json:"what"`
				At   int       `json:"at"`
				To   int       `json:"to"`
				V    [3]vf.F   `json:"v"`
			} `json:"changes"`
			Direct *struct { // in place of what triangulating gives; the hull by number
				Tri  []int `json:"tri"`
				Half []int `json:"half"`
				Hull []int `json:"hull"`
			} `json:"direct"`
		}
		if err := json.Unmarshal(a, &q); err != nil {
			panic("verif: " + err.Error())
		}
		t, err := Triangulate(vfPts(q.P))
		if err != nil {
			panic("verif: no triangulation: " + err.Error())
		}
		if d := q.Direct; d != nil {
			t.Triangles, t.Halfedges, t.ConvexHull = vfInts(d.Tri), vfInts(d.Half), []r3.Vector{}
			for _, i := range d.Hull {
				t.ConvexHull = append(t.ConvexHull, t.Vectors[i])
			}
		}
		for _, c := range q.Changes {
			nt, nh := len(t.Triangles), len(t.ConvexHull)
			if nt == 0 || nh == 0 {
				continue
			}
			switch c.What {
			case "half": // At is a half-edge, To any (-1 or a half-edge)
				to := c.To
				if to >= 0 {
					to %= nt
				}
				t.Halfedges[c.At%nt] = to
			case "wild": // To any number
				t.Halfedges[c.At%nt] = c.To
			case "tri":
				t.Triangles[c.At%nt] = c.To % len(t.Vectors)
			case "droptri": // without its links
				k := c.At % (nt / 3) * 3
				t.Triangles = append(append([]int{}, t.Triangles[:k]...), t.Triangles[k+3:]...)
			case "hull":
				t.ConvexHull[c.At%nh] = r3.Vector{X: float64(c.V[0]), Y: float64(c.V[1]), Z: float64(c.V[2])}
			case "drophull":
				k := c.At % nh
				t.ConvexHull = append(append([]r3.Vector{}, t.ConvexHull[:k]...), t.ConvexHull[k+1:]...)
			case "para": // moved so that the length around stays the same
				i, j := (c.At+nh-1)%nh, (c.At+1)%nh
				h := t.ConvexHull
				h[c.At%nh] = r3.Vector{X: h[i].X + h[j].X - h[c.At%nh].X, Y: h[i].Y + h[j].Y - h[c.At%nh].Y}
			case "shear": // moved so that the area stays the same
				i, j := (c.At+nh-1)%nh, (c.At+1)%nh
				h := t.ConvexHull
				k := float64(c.To%5 - 2)
				h[c.At%nh].X += k * (h[i].X - h[j].X)
				h[c.At%nh].Y += k * (h[i].Y - h[j].Y)
			case "match": // drops triangles until their area is that of the hull, if it can be
				var want, have float64
				for i := 0; i < nh; i++ {
					a, b := t.ConvexHull[i], t.ConvexHull[(i+1)%nh]
					want += a.X*b.Y - a.Y*b.X
				}
				if want < 0 {
					want = -want
				}
				two := func(k int) float64 {
					a, b, c := t.Vectors[t.Triangles[k]], t.Vectors[t.Triangles[k+1]], t.Vectors[t.Triangles[k+2]]
					d := (b.X-a.X)*(c.Y-a.Y) - (b.Y-a.Y)*(c.X-a.X)
					if d < 0 {
						d = -d
					}
					return d
				}
				for k := 0; k < nt; k += 3 {
					have += two(k)
				}
				for k := nt - 3; k >= 0; k -= 3 {
					if d := two(k); have-d >= want {
						have -= d
						t.Triangles = append(append([]int{}, t.Triangles[:k]...), t.Triangles[k+3:]...)
					}
				}
			case "swaphull":
				i, j := c.At%nh, c.To%nh
				t.ConvexHull[i], t.ConvexHull[j] = t.ConvexHull[j], t.ConvexHull[i]
			}
		}
		pts, tri, half, hull := vfOut(t.Vectors), vfInts(t.Triangles), vfInts(t.Halfedges), vfOut(t.ConvexHull)
		bad := t.Validate() != nil
		same := reflect.DeepEqual(pts, vfOut(t.Vectors)) && reflect.DeepEqual(tri, vfInts(t.Triangles)) && reflect.DeepEqual(half, vfInts(t.Halfedges)) && reflect.DeepEqual(hull, vfOut(t.ConvexHull))
		return map[string]interface{}{"bad": bad, "again": (t.Validate() != nil) == bad, "same": same, "tri": tri, "half": half, "hull": hull}
	})
}
