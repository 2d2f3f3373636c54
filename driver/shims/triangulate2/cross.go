package triangulate2

import "geGoMetry/r3"

func init() {
	vfMeasure("cross2D", func(p []r3.Vector) []float64 {
		return []float64{cross2D(p[0], p[1], p[2])}
	})
}
