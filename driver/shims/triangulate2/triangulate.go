package triangulate2

import (
	"encoding/json"
	"reflect"

	vf "@MOD@/zzverif"
)

func init() {
	vf.Register("triangulate", func(a json.RawMessage) interface{} {
		var q struct {
			P [][3]vf.F `json:"p"`
		}
		if err := json.Unmarshal(a, &q); err != nil {
			panic("verif: " + err.Error())
		}
		pts, copy := vfPts(q.P), vfPts(q.P)
		vfWarm(pts, func() interface{} {
			t, _ := Triangulate(pts)
			return t
		})
		t, err := Triangulate(pts)
		if t == nil {
			t = &Triangulation{}
		}
		tri, half, hull := vfInts(t.Triangles), vfInts(t.Halfedges), vfOut(t.ConvexHull)
		Triangulate(vfOther())
		u, err2 := Triangulate(pts)
		if u == nil {
			u = &Triangulation{}
		}
		Triangulate(vfOther())
		again := (err == nil) == (err2 == nil) && reflect.DeepEqual(tri, vfInts(u.Triangles)) && reflect.DeepEqual(half, vfInts(u.Halfedges)) && reflect.DeepEqual(hull, vfOut(u.ConvexHull)) &&
			reflect.DeepEqual(tri, vfInts(t.Triangles)) && reflect.DeepEqual(half, vfInts(t.Halfedges)) && reflect.DeepEqual(hull, vfOut(t.ConvexHull))
		h := ConvexHull(pts)
		ConvexHull(vfOther())
		return map[string]interface{}{"err": err != nil, "tri": tri, "half": half, "hull": hull,
			"chull": vfOut(h), "same": vfSamePts(pts, copy), "again": again}
	})
}
