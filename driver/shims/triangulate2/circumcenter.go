package triangulate2

import "geGoMetry/r3"

func init() {
	vfMeasure("circumcenter", func(p []r3.Vector) []float64 {
		c := circumcenter(p[0], p[1], p[2])
		return []float64{c.X, c.Y}
	})
}
