package triangulate2

import "geGoMetry/r3"

func init() {
	vfMeasure("polygonArea", func(p []r3.Vector) []float64 {
		return []float64{polygonArea(p)}
	})
}
