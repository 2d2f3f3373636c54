package triangulate2

import "geGoMetry/r3"

func init() {
	vfMeasure("area", func(p []r3.Vector) []float64 {
		return []float64{area(p[0], p[1], p[2])}
	})
}
