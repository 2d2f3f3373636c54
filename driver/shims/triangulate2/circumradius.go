package triangulate2

import "geGoMetry/r3"

func init() {
	vfMeasure("circumradius", func(p []r3.Vector) []float64 {
		return []float64{circumradius(p[0], p[1], p[2])}
	})
}
