package triangulate2

import "geGoMetry/r3"

func init() {
	vfMeasure("inCircle", func(p []r3.Vector) []float64 {
		if inCircle(p[0], p[1], p[2], p[3]) {
			return []float64{1}
		}
		return []float64{0}
	})
}
