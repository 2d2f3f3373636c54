From 2ddc6a383b6ad27115a5a1751c02d224a2bdf26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:34 +0000
Subject: [PATCH 01/34] fix: circle and ellipse fans no longer index a vertex
 past the last one

---
 shape/circle.go  | 2 +-
 shape/ellipse.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/shape/circle.go b/shape/circle.go
index 1bc55dd..4c9f9e4 100644
--- a/shape/circle.go
+++ b/shape/circle.go
@@ -44,7 +44,7 @@ func (c Circle) generateVertices(circle *Mesh) {
 
 func (c Circle) generateIndices(circle *Mesh) {
 	lenVertices := len(circle.Vertices)
-	for i := 1; i < lenVertices; i++ {
+	for i := 1; i < lenVertices-1; i++ {
 		circle.Indices = append(circle.Indices, 0, uint32(i), uint32(i+1))
 		circle.Indices = append(circle.Indices, uint32(i+1), uint32(i), 0)
 
diff --git a/shape/ellipse.go b/shape/ellipse.go
index a55589d..0cf44dc 100644
--- a/shape/ellipse.go
+++ b/shape/ellipse.go
@@ -46,7 +46,7 @@ func (e Ellipse) generateVertices(circle *Mesh) {
 
 func (e Ellipse) generateIndices(circle *Mesh) {
 	lenVertices := len(circle.Vertices)
-	for i := 1; i < lenVertices; i++ {
+	for i := 1; i < lenVertices-1; i++ {
 		circle.Indices = append(circle.Indices, 0, uint32(i), uint32(i+1))
 		circle.Indices = append(circle.Indices, uint32(i+1), uint32(i), 0)
 
-- 
2.43.0


From bca39be941e63c3cd21e5f864dd4799dc51c3dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:34 +0000
Subject: [PATCH 02/34] fix: sphere and torus vertices are placed around the
 requested center

---
 shape/sphere.go | 1 +
 shape/torus.go  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/shape/sphere.go b/shape/sphere.go
index 255cf9c..3c36c5c 100644
--- a/shape/sphere.go
+++ b/shape/sphere.go
@@ -54,6 +54,7 @@ func (sd Sphere) generateVertices(sphere *Mesh) {
 			y = xy * math.Sin(sectorAngle) // r * cos(u) * sin(v)
 
 			Vector := r3.Vector{x, y, z}
+			Vector.Add(sd.center)
 			sphere.Vertices = append(sphere.Vertices, Vector)
 
 			// normalized vertex normal (nx, ny, nz)
diff --git a/shape/torus.go b/shape/torus.go
index 1c26206..12f1f28 100644
--- a/shape/torus.go
+++ b/shape/torus.go
@@ -54,6 +54,7 @@ func (td Torus) generateVertices(torus *Mesh) {
 			y = xy * math.Sin(sectorAngle) // (R + r * cos(u)) * sin(v)
 
 			Vector := r3.Vector{x, y, z}
+			Vector.Add(td.center)
 			torus.Vertices = append(torus.Vertices, Vector)
 
 			// normalized vertex normal (nx, ny, nz)
-- 
2.43.0


From f0e7566ae21b1410b183a5541a08e638d0dcd7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:34 +0000
Subject: [PATCH 03/34] fix: sphere mesh reaches the south pole and is closed
 there

---
 shape/sphere.go | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/shape/sphere.go b/shape/sphere.go
index 3c36c5c..6737766 100644
--- a/shape/sphere.go
+++ b/shape/sphere.go
@@ -37,7 +37,7 @@ func (sd Sphere) generateVertices(sphere *Mesh) {
 
 	lengthInv = 1.0 / float64(sd.radius)
 
-	for i := 0; i < sd.stackCount; i++ {
+	for i := 0; i <= sd.stackCount; i++ {
 
 		stackAngle := math.Pi/2 - float64(i)*stackStep // starting from pi/2 to -pi/2
 		xy = sd.radius * math.Cos(stackAngle)          // r * cos(u)
@@ -91,15 +91,13 @@ func (sd Sphere) generateIndices(sphere *Mesh) {
 	}
 
 	//	BOTTOM
-	// k1 = uint32((sd.stackCount-1) * (sd.sectorCount + 1))
-	// k2 = 0 //k1+uint32(sd.sectorCount )
+	k1 = uint32((sd.stackCount - 1) * (sd.sectorCount + 1))
+	k2 = k1 + uint32(sd.sectorCount+1)
 
-	// for j := 0; j < sd.sectorCount; j ,k1= j+1, k1+1{
-
-	//     // k1+1 => k2 => k2+1
-	//     indices = append(indices, k1, k2, k1+1);
-
-	// }
+	for j := 0; j < sd.sectorCount; j, k1, k2 = j+1, k1+1, k2+1 {
+		// k1 => k2 => k1+1
+		sphere.Indices = append(sphere.Indices, k1, k2, k1+1)
+	}
 
 	//	MIDDLE
 	for i := 1; i < sd.stackCount-1; i++ {
-- 
2.43.0


From 53afcbc4c8d3d619466985f52a911d422199150b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:01 +0000
Subject: [PATCH 04/34] fix: torus mesh is closed across its first and last
 rings

---
 shape/torus.go | 29 ++++-------------------------
 1 file changed, 4 insertions(+), 25 deletions(-)

diff --git a/shape/torus.go b/shape/torus.go
index 12f1f28..3322ee8 100644
--- a/shape/torus.go
+++ b/shape/torus.go
@@ -37,7 +37,7 @@ func (td Torus) generateVertices(torus *Mesh) {
 
 	lengthInv = 1.0 / float64(td.radius)
 
-	for i := 0; i < td.stackCount; i++ {
+	for i := 0; i <= td.stackCount; i++ {
 
 		stackAngle := math.Pi/2 - float64(i)*stackStep      // starting from pi/2 to -pi/2
 		xy = td.radius + td.tubeRadius*math.Cos(stackAngle) // R + r * cos(u)
@@ -79,37 +79,16 @@ func (td Torus) generateIndices(torus *Mesh) {
 
 	var k1, k2 uint32
 
-	//	TOP
-	k1 = 0
-	k2 = uint32(td.sectorCount + 1)
-
-	//fmt.Println("TOP")
-	for j := 0; j < td.sectorCount; j, k1, k2 = j+1, k1+1, k2+1 {
-		//fmt.Println("A",k1+1,"B", k2, "C", k2+1)
-		// k1+1 => k2 => k2+1
-		torus.Indices = append(torus.Indices, k1+1, k2, k2+1)
-	}
-
-	//	BOTTOM
-	// k1 = uint32((td.stackCount - 1) * (td.sectorCount + 1))
-	// k2 = 0 //k1+uint32(td.sectorCount )
-
-	// for j := 0; j < td.sectorCount; j, k1 = j+1, k1+1 {
-
-	// 	// k1+1 => k2 => k2+1
-	// 	torus.Indices = append(torus.Indices, k1, k2, k1+1)
-
-	// }
-
+	//	no caps: the first and the last stack are the same ring
 	//	MIDDLE
-	for i := 1; i < td.stackCount-1; i++ {
+	for i := 0; i < td.stackCount; i++ {
 
 		k1 = uint32(i * (td.sectorCount + 1)) // beginning of current stack
 		k2 = k1 + uint32(td.sectorCount+1)    // beginning of next stack
 
 		for j := 0; j < td.sectorCount; j, k1, k2 = j+1, k1+1, k2+1 {
 
-			// 2 triangles per sector excluding first and last stacks
+			// 2 triangles per sector
 			// k1 => k2 => k1+1
 			torus.Indices = append(torus.Indices, k1, k2, k1+1)
 
-- 
2.43.0


From 797014fec033524abcaaf78e9ffaedaf05844b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:01 +0000
Subject: [PATCH 05/34] fix: sphere and torus texture coordinates are not
 truncated to 0 or 1

---
 shape/sphere.go | 4 ++--
 shape/torus.go  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/shape/sphere.go b/shape/sphere.go
index 6737766..4f263b5 100644
--- a/shape/sphere.go
+++ b/shape/sphere.go
@@ -66,8 +66,8 @@ func (sd Sphere) generateVertices(sphere *Mesh) {
 			sphere.Normals = append(sphere.Normals, normal)
 
 			// vertex tex coord (s, t) range between [0, 1]
-			s = float64(j / sd.sectorCount)
-			t = float64(i / sd.stackCount)
+			s = float64(j) / float64(sd.sectorCount)
+			t = float64(i) / float64(sd.stackCount)
 
 			texCoord := [2]float64{s, t}
 			sphere.TexCoords = append(sphere.TexCoords, texCoord)
diff --git a/shape/torus.go b/shape/torus.go
index 3322ee8..8fd15ee 100644
--- a/shape/torus.go
+++ b/shape/torus.go
@@ -66,8 +66,8 @@ func (td Torus) generateVertices(torus *Mesh) {
 			torus.Normals = append(torus.Normals, normal)
 
 			// vertex tex coord (s, t) range between [0, 1]
-			s = float64(j / td.sectorCount)
-			t = float64(i / td.stackCount)
+			s = float64(j) / float64(td.sectorCount)
+			t = float64(i) / float64(td.stackCount)
 
 			texCoord := [2]float64{s, t}
 			torus.TexCoords = append(torus.TexCoords, texCoord)
-- 
2.43.0


From f7909ed6fde90d28bb9db56b3fa625593fc8f397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:02 +0000
Subject: [PATCH 06/34] fix: torus normals are unit normals of the tube

---
 shape/torus.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/shape/torus.go b/shape/torus.go
index 8fd15ee..b239079 100644
--- a/shape/torus.go
+++ b/shape/torus.go
@@ -29,14 +29,12 @@ func (td Torus) Construct() Mesh {
 func (td Torus) generateVertices(torus *Mesh) {
 
 	var x, y, z, xy float64           //	vertex position
-	var nx, ny, nz, lengthInv float64 //	vertex normal
+	var nx, ny, nz float64            //	vertex normal
 	var s, t float64                  //	vertex texCoord
 
 	sectorStep := 2 * math.Pi / float64(td.sectorCount)
 	stackStep := 2 * math.Pi / float64(td.stackCount)
 
-	lengthInv = 1.0 / float64(td.radius)
-
 	for i := 0; i <= td.stackCount; i++ {
 
 		stackAngle := math.Pi/2 - float64(i)*stackStep      // starting from pi/2 to -pi/2
@@ -58,9 +56,9 @@ func (td Torus) generateVertices(torus *Mesh) {
 			torus.Vertices = append(torus.Vertices, Vector)
 
 			// normalized vertex normal (nx, ny, nz)
-			nx = x * lengthInv
-			ny = y * lengthInv
-			nz = z * lengthInv
+			nx = math.Cos(stackAngle) * math.Cos(sectorAngle)
+			ny = math.Cos(stackAngle) * math.Sin(sectorAngle)
+			nz = math.Sin(stackAngle)
 
 			normal := [3]float64{nx, ny, nz}
 			torus.Normals = append(torus.Normals, normal)
-- 
2.43.0


From 671741c2511fdb34bc82b86514052d0298f05280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:02 +0000
Subject: [PATCH 07/34] fix: triangulating a single point reports an error
 instead of crashing

---
 triangulate2/triangulator.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/triangulate2/triangulator.go b/triangulate2/triangulator.go
index df49be8..19ffa02 100644
--- a/triangulate2/triangulator.go
+++ b/triangulate2/triangulator.go
@@ -60,8 +60,8 @@ func (tri *triangulator) triangulate() error {
 	// compute bounds
 	x0 := Vectors[0].X
 	y0 := Vectors[0].Y
-	x1 := Vectors[1].X
-	y1 := Vectors[1].Y
+	x1 := Vectors[0].X
+	y1 := Vectors[0].Y
 	for i, p := range Vectors {
 		if p.X < x0 {
 			x0 = p.X
-- 
2.43.0


From a3cfbe172a00c84d4bc136f82c8666e9ebe78475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:02 +0000
Subject: [PATCH 08/34] fix: normalizing the zero vector in place leaves zero
 instead of NaN

---
 r3/vector.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/r3/vector.go b/r3/vector.go
index a509944..90a17e7 100644
--- a/r3/vector.go
+++ b/r3/vector.go
@@ -31,6 +31,7 @@ func (v *Vector) Normalize() *Vector {
 	n2 := v.Norm2()
 	if n2 == 0 {
 		v.X, v.Y, v.Z = 0, 0, 0
+		return v
 	}
 	v.Scale(1 / math.Sqrt(n2))
 	return v
-- 
2.43.0


From 15f4ba01e4e66ed5b8cf7b99f86fb4b567def5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:02 +0000
Subject: [PATCH 09/34] fix: distance to a plane uses the distance of the plane

---
 r3/vector.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/r3/vector.go b/r3/vector.go
index 90a17e7..22505a8 100644
--- a/r3/vector.go
+++ b/r3/vector.go
@@ -110,7 +110,7 @@ func Cross(v Vector, ov Vector) Vector {
 }
 
 // CalculateDistanceToPlane returns the distance from vector v to plane p
-func (v Vector) CalculateDistanceToPlane(p Plane) float64 { return Dot(p.Normal, v) + p.Normal.Norm2() }
+func (v Vector) CalculateDistanceToPlane(p Plane) float64 { return Dot(p.Normal, v) + p.Distance }
 
 func det2D(a, b Vector) float64 {
 	return a.X*b.Y - a.Y*b.X
-- 
2.43.0


From 805a9a8feaa9951fdb72b10aaafa934479c8600c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:27 +0000
Subject: [PATCH 10/34] fix: 2D triangulation measures distances in the plane,
 ignoring Z

---
 triangulate2/hull.go         |  2 +-
 triangulate2/triangulator.go |  8 ++++----
 triangulate2/util.go         | 10 +++++++++-
 3 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/triangulate2/hull.go b/triangulate2/hull.go
index 11f07f5..d9d2d6b 100644
--- a/triangulate2/hull.go
+++ b/triangulate2/hull.go
@@ -29,7 +29,7 @@ func ConvexHull(Vectors []r3.Vector) []r3.Vector {
 	// filter nearly-duplicate Vectors
 	distinctVectors := Vectors[:0]
 	for i, p := range Vectors {
-		if i > 0 && r3.SquaredDistance(p, Vectors[i-1]) < eps {
+		if i > 0 && planarDistance2(p, Vectors[i-1]) < eps {
 			continue
 		}
 		distinctVectors = append(distinctVectors, p)
diff --git a/triangulate2/triangulator.go b/triangulate2/triangulator.go
index 19ffa02..95611a7 100644
--- a/triangulate2/triangulator.go
+++ b/triangulate2/triangulator.go
@@ -84,7 +84,7 @@ func (tri *triangulator) triangulate() error {
 	m := r3.Vector{(x0 + x1) / 2, (y0 + y1) / 2, 0}
 	minDist := infinity
 	for i, p := range Vectors {
-		d := r3.SquaredDistance(p, m)
+		d := planarDistance2(p, m)
 		if d < minDist {
 			i0 = i
 			minDist = d
@@ -97,7 +97,7 @@ func (tri *triangulator) triangulate() error {
 		if i == i0 {
 			continue
 		}
-		d := r3.SquaredDistance(p, Vectors[i0])
+		d := planarDistance2(p, Vectors[i0])
 		if d > 0 && d < minDist {
 			i1 = i
 			minDist = d
@@ -130,7 +130,7 @@ func (tri *triangulator) triangulate() error {
 	// sort the Vectors by distance from the seed triangle circumcenter
 	tri.squaredDistances = make([]float64, n)
 	for i, p := range Vectors {
-		tri.squaredDistances[i] = r3.SquaredDistance(p, tri.center)
+		tri.squaredDistances[i] = planarDistance2(p, tri.center)
 	}
 	sort.Sort(tri)
 
@@ -167,7 +167,7 @@ func (tri *triangulator) triangulate() error {
 		p := Vectors[i]
 
 		// skip nearly-duplicate Vectors
-		if r3.SquaredDistance(p, pp) < eps {
+		if planarDistance2(p, pp) < eps {
 			continue
 		}
 		pp = p
diff --git a/triangulate2/util.go b/triangulate2/util.go
index 14d1d35..78130e8 100644
--- a/triangulate2/util.go
+++ b/triangulate2/util.go
@@ -44,6 +44,14 @@ func inCircle(a, b, c, p r3.Vector) bool {
 	return dx*(ey*cp-bp*fy)-dy*(ex*cp-bp*fx)+ap*(ex*fy-ey*fx) < 0
 }
 
+// planarDistance2 returns the squared distance between a and b in the plane of
+// the triangulation, which ignores Z.
+func planarDistance2(a, b r3.Vector) float64 {
+	dx := a.X - b.X
+	dy := a.Y - b.Y
+	return dx*dx + dy*dy
+}
+
 func circumradius(a, b, c r3.Vector) float64 {
 	dx := b.X - a.X
 	dy := b.Y - a.Y
@@ -98,7 +106,7 @@ func polygonPerimeter(Vectors []r3.Vector) float64 {
 	var result float64
 	q := Vectors[len(Vectors)-1]
 	for _, p := range Vectors {
-		result += r3.Distance(p, q)
+		result += math.Sqrt(planarDistance2(p, q))
 		q = p
 	}
 	return result
-- 
2.43.0


From 778f6c6d991e43f96b956a2206731dfc3cdfe67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:27 +0000
Subject: [PATCH 11/34] fix: initial simplex takes the point farthest from the
 plane on either side

---
 triangulate3/gdel3d.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/triangulate3/gdel3d.go b/triangulate3/gdel3d.go
index 3dae706..4ea42cc 100644
--- a/triangulate3/gdel3d.go
+++ b/triangulate3/gdel3d.go
@@ -34,8 +34,8 @@ func getFurthestFromthreeVectors(Vectors []r3.Vector, a, b, c r3.Vector) r3.Vect
 	max := 0.0
 	var furthestVector r3.Vector
 	for _, Vector := range Vectors {
-		dist := Get3Ddist(a, b, c, Vector)
-		if max > dist {
+		dist := math.Abs(Get3Ddist(a, b, c, Vector))
+		if max < dist {
 			furthestVector = Vector
 			max = dist
 		}
-- 
2.43.0


From 4b7b32682aa9ece45aa5500bf38b0a25dd7b6122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:32 +0000
Subject: [PATCH 12/34] fix: extents in triangulate3 cover the whole float64
 range

---
 triangulate3/englober.go | 4 ++--
 triangulate3/gdel3d.go   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/triangulate3/englober.go b/triangulate3/englober.go
index 9fe66d5..e87aafc 100644
--- a/triangulate3/englober.go
+++ b/triangulate3/englober.go
@@ -58,8 +58,8 @@ func getTopVectorOfTetrahedron(minExtremity, maxExtremity r3.Vector) r3.Vector {
 }
 
 func computeBoundingBoxForVectors(Vectors []r3.Vector) (r3.Vector, r3.Vector) {
-	minExtremity := r3.Vector{math.MaxFloat32, math.MaxFloat32, math.MaxFloat32}
-	maxExtremity := r3.Vector{-math.MaxFloat32, -math.MaxFloat32, -math.MaxFloat32}
+	minExtremity := r3.Vector{math.MaxFloat64, math.MaxFloat64, math.MaxFloat64}
+	maxExtremity := r3.Vector{-math.MaxFloat64, -math.MaxFloat64, -math.MaxFloat64}
 	for _, Vector := range Vectors {
 		//Updating the minExtremity
 		if Vector.X < minExtremity.X {
diff --git a/triangulate3/gdel3d.go b/triangulate3/gdel3d.go
index 4ea42cc..e4d4dd7 100644
--- a/triangulate3/gdel3d.go
+++ b/triangulate3/gdel3d.go
@@ -44,8 +44,8 @@ func getFurthestFromthreeVectors(Vectors []r3.Vector, a, b, c r3.Vector) r3.Vect
 }
 
 func computeExtremitiesForAxeX(Vectors []r3.Vector) (r3.Vector, r3.Vector) {
-	minExtremity := r3.Vector{math.MaxFloat32, math.MaxFloat32, math.MaxFloat32}
-	maxExtremity := r3.Vector{-math.MaxFloat32, -math.MaxFloat32, -math.MaxFloat32}
+	minExtremity := r3.Vector{math.MaxFloat64, math.MaxFloat64, math.MaxFloat64}
+	maxExtremity := r3.Vector{-math.MaxFloat64, -math.MaxFloat64, -math.MaxFloat64}
 	for _, Vector := range Vectors {
 		//Updating the minExtremity
 		if Vector.X < minExtremity.X {
-- 
2.43.0


From 981c798773b4232c3b8f615740bb89afeee52168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:32 +0000
Subject: [PATCH 13/34] fix: englobing tetrahedron contains the whole bounding
 box

---
 triangulate3/englober.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/triangulate3/englober.go b/triangulate3/englober.go
index e87aafc..04de988 100644
--- a/triangulate3/englober.go
+++ b/triangulate3/englober.go
@@ -18,22 +18,24 @@ func constructEnglobingTetra(Vectors []r3.Vector) shape.Mesh {
 	normal := r3.Vector{0, 1, 0}
 	lowerPlane := r3.Plane3D{Normal: normal, Vector: minExtremity}
 	top := getTopVectorOfTetrahedron(minExtremity, maxExtremity)
+	// the lines from the top meet the upper face of the box in a triangle
+	// which contains that face
 	//Line 1
-	upperVector1 := r3.Vector{minExtremity.X, maxExtremity.Y, maxExtremity.Z}
+	upperVector1 := r3.Vector{minExtremity.X, maxExtremity.Y, minExtremity.Z}
 	Direct1 := r3.Sub(top, upperVector1)
 	line1 := r3.Line{Vector: upperVector1, Direction: Direct1}
 	// first bottom Intersection Vector
 	tetraPoint1 := line1.IntersectPlane(lowerPlane)
 
 	//Line 2
-	upperVector2 := r3.Vector{maxExtremity.X, maxExtremity.Y, maxExtremity.Z}
+	upperVector2 := r3.Vector{minExtremity.X, maxExtremity.Y, 2*maxExtremity.Z - minExtremity.Z}
 	Direct2 := r3.Sub(top, upperVector2)
 	line2 := r3.Line{Vector: upperVector2, Direction: Direct2}
 	// second bottom Intersection Vector
 	tetraPoint2 := line2.IntersectPlane(lowerPlane)
 
 	//Line 3
-	upperVector3 := r3.Vector{maxExtremity.X, maxExtremity.Y, minExtremity.Z}
+	upperVector3 := r3.Vector{2*maxExtremity.X - minExtremity.X, maxExtremity.Y, minExtremity.Z}
 	Direct3 := r3.Sub(top, upperVector3)
 	line3 := r3.Line{Vector: upperVector3, Direction: Direct3}
 	// third bottom Intersection Vector
@@ -51,7 +53,7 @@ func constructEnglobingTetra(Vectors []r3.Vector) shape.Mesh {
 }
 func getTopVectorOfTetrahedron(minExtremity, maxExtremity r3.Vector) r3.Vector {
 	x := minExtremity.X
-	y := 2 * maxExtremity.Y
+	y := 2*maxExtremity.Y - minExtremity.Y
 	z := minExtremity.Z
 
 	return r3.Vector{x, y, z}
-- 
2.43.0


From c8faf8889825d253156cecc21d1c6a22d21dbb87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:32 +0000
Subject: [PATCH 14/34] fix: initial tetrahedron strictly contains the points,
 also flat sets

---
 meshing/helper.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/meshing/helper.go b/meshing/helper.go
index 614e76b..d2db7a8 100644
--- a/meshing/helper.go
+++ b/meshing/helper.go
@@ -95,9 +95,16 @@ func (h helper) computerInitialTetraPoints() (r3.Vector, r3.Vector, r3.Vector, r
 	xmin, ymin, zmin := h.min.X, h.min.Y, h.min.Z
 	xmax, ymax, zmax := h.max.X, h.max.Y, h.max.Z
 
-	xtetra := xmin + 3*(xmax-xmin)
-	ytetra := ymin + 3*(ymax-ymin)
-	ztetra := zmin + 3*(zmax-zmin)
+	// keep the corners and faces well away from the points
+	size := math.Max(xmax-xmin, math.Max(ymax-ymin, zmax-zmin))
+	if size == 0 {
+		size = 1
+	}
+	xmin, ymin, zmin = xmin-10*size, ymin-10*size, zmin-10*size
+
+	xtetra := xmin + 40*size
+	ytetra := ymin + 40*size
+	ztetra := zmin + 40*size
 
 	//Bounding Tetrahedron
 	p1 := r3.Vector{X: xmin, Y: ymin, Z: zmin}
-- 
2.43.0


From 6bf126f6f4031377290ad1c7579b6a17497b4e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:33 +0000
Subject: [PATCH 15/34] fix: Bowyer-Watson tests circumspheres of consistently
 oriented tetrahedra

---
 meshing/mesh.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/meshing/mesh.go b/meshing/mesh.go
index 7667f5f..a3a445e 100644
--- a/meshing/mesh.go
+++ b/meshing/mesh.go
@@ -169,7 +169,12 @@ func bowyerWatson(points ...r3.Vector) []int {
 		polyhedron := []face{}
 		faceSet := make(map[string]faceCheck, 0)
 		for _, tetra := range t {
-			if predicates.InSphereFast(points[tetra.ia], points[tetra.ib], points[tetra.ic], points[tetra.id], point) >= 0 {
+			pa, pb, pc, pd := points[tetra.ia], points[tetra.ib], points[tetra.ic], points[tetra.id]
+			// the sphere test assumes a positively oriented tetrahedron
+			if r3.Dot(r3.Cross(r3.Sub(pa, pd), r3.Sub(pb, pd)), r3.Sub(pc, pd)) < 0 {
+				pa, pb = pb, pa
+			}
+			if predicates.InSphereFast(pa, pb, pc, pd, point) >= 0 {
 				badTetras = append(badTetras, tetra)
 			}
 		}
-- 
2.43.0


From cf91e11005dda8d63fd88dadecc47a99744f43e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:11 +0000
Subject: [PATCH 16/34] fix: commas and parentheses inside quoted strings do
 not split arguments

---
 step/util.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/step/util.go b/step/util.go
index 3d97f34..4208cd3 100644
--- a/step/util.go
+++ b/step/util.go
@@ -13,15 +13,19 @@ import (
 func getArguments(argumentsText string) []string {
 	arguments := make([]string, 0)
 	openBrackets := 0
+	inString := false
 	argument := make([]rune, 0)
 	for _, r := range argumentsText {
-		if r == '(' {
+		if r == '\'' {
+			inString = !inString
+		}
+		if r == '(' && !inString {
 			openBrackets++
 		}
-		if r == ')' {
+		if r == ')' && !inString {
 			openBrackets--
 		}
-		if openBrackets == 0 && r == ',' {
+		if openBrackets == 0 && r == ',' && !inString {
 			arguments = append(arguments, string(argument))
 			argument = make([]rune, 0)
 			continue
@@ -45,16 +49,20 @@ func getArray(arrayText string, t reflect.Kind) []string {
 	/* removing `(` from start and `)` from end*/
 	arrayText = arrayText[1 : len(arrayText)-1]
 	openBrackets := 0
+	inString := false
 	element := make([]rune, 0)
 	array := make([]string, 0)
 	for _, r := range arrayText {
-		if r == '(' {
+		if r == '\'' {
+			inString = !inString
+		}
+		if r == '(' && !inString {
 			openBrackets++
 		}
-		if r == ')' {
+		if r == ')' && !inString {
 			openBrackets--
 		}
-		if openBrackets == 0 && r == ',' {
+		if openBrackets == 0 && r == ',' && !inString {
 			array = append(array, string(element))
 			element = make([]rune, 0)
 			continue
-- 
2.43.0


From 9f83ed167b9df66c2651fb6eaa6dcd485c8c296f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:11 +0000
Subject: [PATCH 17/34] fix: argument texts keep their bytes, also when they
 are not valid UTF-8

---
 step/util.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/step/util.go b/step/util.go
index 4208cd3..6d8a43d 100644
--- a/step/util.go
+++ b/step/util.go
@@ -14,8 +14,8 @@ func getArguments(argumentsText string) []string {
 	arguments := make([]string, 0)
 	openBrackets := 0
 	inString := false
-	argument := make([]rune, 0)
-	for _, r := range argumentsText {
+	argument := make([]byte, 0)
+	for _, r := range []byte(argumentsText) {
 		if r == '\'' {
 			inString = !inString
 		}
@@ -27,7 +27,7 @@ func getArguments(argumentsText string) []string {
 		}
 		if openBrackets == 0 && r == ',' && !inString {
 			arguments = append(arguments, string(argument))
-			argument = make([]rune, 0)
+			argument = make([]byte, 0)
 			continue
 		}
 		argument = append(argument, r)
@@ -50,9 +50,9 @@ func getArray(arrayText string, t reflect.Kind) []string {
 	arrayText = arrayText[1 : len(arrayText)-1]
 	openBrackets := 0
 	inString := false
-	element := make([]rune, 0)
+	element := make([]byte, 0)
 	array := make([]string, 0)
-	for _, r := range arrayText {
+	for _, r := range []byte(arrayText) {
 		if r == '\'' {
 			inString = !inString
 		}
@@ -64,7 +64,7 @@ func getArray(arrayText string, t reflect.Kind) []string {
 		}
 		if openBrackets == 0 && r == ',' && !inString {
 			array = append(array, string(element))
-			element = make([]rune, 0)
+			element = make([]byte, 0)
 			continue
 		}
 		element = append(element, r)
-- 
2.43.0


From e27847865ca3d247ef778173a936ac240b0dcbe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:12 +0000
Subject: [PATCH 18/34] fix: blanks around arguments and before the final
 parenthesis or semicolon are dropped

---
 step/util.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/step/util.go b/step/util.go
index 6d8a43d..8099213 100644
--- a/step/util.go
+++ b/step/util.go
@@ -26,15 +26,15 @@ func getArguments(argumentsText string) []string {
 			openBrackets--
 		}
 		if openBrackets == 0 && r == ',' && !inString {
-			arguments = append(arguments, string(argument))
+			arguments = append(arguments, strings.TrimSpace(string(argument)))
 			argument = make([]byte, 0)
 			continue
 		}
 		argument = append(argument, r)
 	}
 	/* sanitizing last input by remove `);` */
-	lastArgument := string(argument)[:len(argument)-2]
-	arguments = append(arguments, lastArgument)
+	lastArgument := strings.TrimSuffix(strings.TrimRight(string(argument), "; \t"), ")")
+	arguments = append(arguments, strings.TrimSpace(lastArgument))
 	return arguments
 }
 
@@ -63,13 +63,13 @@ func getArray(arrayText string, t reflect.Kind) []string {
 			openBrackets--
 		}
 		if openBrackets == 0 && r == ',' && !inString {
-			array = append(array, string(element))
+			array = append(array, strings.TrimSpace(string(element)))
 			element = make([]byte, 0)
 			continue
 		}
 		element = append(element, r)
 	}
-	array = append(array, string(element))
+	array = append(array, strings.TrimSpace(string(element)))
 	return array
 }
 
-- 
2.43.0


From c557f1307c206e72a246ca4fedd1981d576f1279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:12 +0000
Subject: [PATCH 19/34] fix: instance names are stored without surrounding
 blanks

---
 step/lex.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/step/lex.go b/step/lex.go
index b6a86f3..c2aa5e0 100644
--- a/step/lex.go
+++ b/step/lex.go
@@ -123,7 +123,7 @@ func (l *Lexer) emit(s Symbol) {
 */
 func (st *SymbolTable) add(symbolText string) {
 	split := strings.SplitN(symbolText, "=", 2)
-	identifier := split[0]
+	identifier := strings.TrimSpace(split[0])
 	definition := tokenize(split[1])
 	(*st)[identifier] = definition
 
-- 
2.43.0


From 91d37497149a483fc982971fad00588d803f585a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:32 +0000
Subject: [PATCH 20/34] fix: lexing reports a read error instead of looping
 forever

---
 step/lex.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/step/lex.go b/step/lex.go
index c2aa5e0..65f83ed 100644
--- a/step/lex.go
+++ b/step/lex.go
@@ -70,6 +70,7 @@ func (l *Lexer) Lex() SymbolTable {
 		if err == io.EOF {
 			break
 		}
+		check(err)
 
 		buffer := string(line)
 
-- 
2.43.0


From d52b97588f65c26a97e683b0295622ba3b14d677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:08 +0000
Subject: [PATCH 21/34] fix: lexing skips header and trailer sections and '='
 in strings

---
 step/lex.go | 32 +++++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/step/lex.go b/step/lex.go
index 65f83ed..8c08ccc 100644
--- a/step/lex.go
+++ b/step/lex.go
@@ -5,6 +5,7 @@ import (
 	"flag"
 	"io"
 	"os"
+	"regexp"
 	"strings"
 )
 
@@ -88,7 +89,7 @@ func (l *Lexer) Lex() SymbolTable {
 		/*	you can optimize this further more by making sure the symbol
 			is init to the first value when you start parsing and remvove
 			the first check*/
-		if strings.Contains(buffer, "=") { // contains =
+		if startsDefinition(buffer, symbolText) {
 			/* --sync method
 			---fmt.Println("emit") */
 
@@ -106,14 +107,39 @@ func (l *Lexer) Lex() SymbolTable {
 			*/
 			/*_----------------------------------------------------_*/
 			symbolText = buffer // is not empty and does not contain =
-		} else {
+		} else if !isComplete(symbolText) {
+			// sections around the definitions are not part of any of them
 			symbolText += buffer
 		}
 	}
-	symbolTable.add(symbolText)
+	if len(symbolText) > 0 {
+		symbolTable.add(symbolText)
+	}
 	return symbolTable
 }
 
+var definitionStart = regexp.MustCompile(`^\s*#\d+\s*=`)
+
+// startsDefinition : the line begins a new definition, given the text
+// which is pending before it
+func startsDefinition(line, pending string) bool {
+	if isComplete(pending) {
+		return strings.HasPrefix(strings.TrimSpace(line), "#")
+	}
+	return definitionStart.MatchString(line) && !inString(pending)
+}
+
+// inString : the text ends inside of a quoted string
+func inString(text string) bool {
+	return strings.Count(text, "'")%2 == 1
+}
+
+// isComplete : the text needs no more lines, no definition has been
+// started yet or the last one is terminated
+func isComplete(text string) bool {
+	return len(text) == 0 || (strings.HasSuffix(strings.TrimSpace(text), ";") && !inString(text))
+}
+
 // emit : emits the symbol to the symbols chanel
 func (l *Lexer) emit(s Symbol) {
 	l.SymbolsChan <- s
-- 
2.43.0


From f96d9be30997ae1330129294ff5063bec2f19a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:40 +0000
Subject: [PATCH 22/34] fix: references to undefined instances are skipped
 while parsing

---
 step/parse.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/step/parse.go b/step/parse.go
index da16cbe..1e02865 100644
--- a/step/parse.go
+++ b/step/parse.go
@@ -56,7 +56,8 @@ func (parser *Parser) runInferenceModel(state parseState) {
 
 	for len(parser.nextStates) > 0 {
 		popState := parser.nextStates[0]
-		if _, found := parser.visited[popState.key]; !found {
+		_, defined := parser.lexemes[popState.key]
+		if _, found := parser.visited[popState.key]; defined && !found {
 
 			popState.fn(popState.key)
 			parser.visited[popState.key] = struct{}{}
-- 
2.43.0


From 4cbd39c710ecab8f9b156d691fa857e0417ce04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:40 +0000
Subject: [PATCH 23/34] fix: advanced faces are recognised and lead to their
 surface

---
 step/bridge.go   | 2 +-
 step/template.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/step/bridge.go b/step/bridge.go
index 50f5e45..5346136 100644
--- a/step/bridge.go
+++ b/step/bridge.go
@@ -24,7 +24,7 @@ func (parser *Parser) bridge(definition Definition) parseFn {
 		return parser.face
 	case "B_SPLINE_SURFACE_WITH_KNOTS":
 		return parser.bSplineSurfaceWithKnots
-	case "ADVENCED_FACE":
+	case "ADVANCED_FACE":
 		return parser.advancedFace
 	case "CLOSED_SHELL":
 		return parser.closedShell
diff --git a/step/template.go b/step/template.go
index 615acfd..1d1a713 100644
--- a/step/template.go
+++ b/step/template.go
@@ -90,7 +90,7 @@ func (p *Parser) advancedFace(key string) {
 	fmt.Println("parsing advanced face")
 
 	advancedFace := p.lexemes[key]
-	neighbourID := advancedFace.Arguments[1]
+	neighbourID := advancedFace.Arguments[2]
 	fmt.Println(p.lexemes[neighbourID].Type)
 
 	switch faceType := strings.TrimSpace(p.lexemes[neighbourID].Type); {
-- 
2.43.0


From cca9506aca84c036061ed49f878310a457fc0fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:40 +0000
Subject: [PATCH 24/34] fix: span lookup ends for parameters outside of the
 knot range

---
 nurbs/basis.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nurbs/basis.go b/nurbs/basis.go
index 370d9ff..4696856 100644
--- a/nurbs/basis.go
+++ b/nurbs/basis.go
@@ -11,14 +11,16 @@ import "fmt"
 --U : the knot vector
 */
 func findSpan(n, p int, u float64, U []int) int {
-	if u == float64(U[n+1]) {
+	if u >= float64(U[n+1]) {
 		return n
 	}
+	if u < float64(U[p]) {
+		return p
+	}
 	/* do binary search */
 	low := p
 	high := n + 1
 	mid := (low + high) / 2
-	/* BUG: this is not robust: */
 	for u < float64(U[mid]) || u >= float64(U[mid+1]) {
 		fmt.Println("knot Vector:", U)
 
-- 
2.43.0


From 16ca99933d6515f0a4944912aebc2065139275ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:56 +0000
Subject: [PATCH 25/34] fix: basis function derivatives follow the derivative
 recurrence

---
 nurbs/basis.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nurbs/basis.go b/nurbs/basis.go
index 4696856..09bdd67 100644
--- a/nurbs/basis.go
+++ b/nurbs/basis.go
@@ -93,9 +93,10 @@ func dersBasisFuns(i, u, p, n int, U []int) [][]float64 {
 	left := make([]float64, p+1)
 	right := make([]float64, p+1)
 	/* ------------------------------------ */
+	ndu[0][0] = 1.
 	for j := 1; j <= p; j++ {
 		left[j] = float64(u - U[i+1-j])
-		right[j] = float64(U[i+1] - u)
+		right[j] = float64(U[i+j] - u)
 		saved := 0.
 		for r := 0; r < j; r++ {
 			/* lower triangle */
@@ -143,7 +144,7 @@ func dersBasisFuns(i, u, p, n int, U []int) [][]float64 {
 			}
 			for j := j1; j <= j2; j++ {
 				a[s2][j] = (a[s1][j] - a[s1][j-1]) / ndu[pk+1][rk+j]
-				d += a[s2][j] * ndu[r][pk]
+				d += a[s2][j] * ndu[rk+j][pk]
 			}
 			if r <= pk {
 				a[s2][k] = -a[s1][k-1] / ndu[pk+1][r]
-- 
2.43.0


From 7fe1940a4ea6504574307080a5e9a2e887c3d319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:02 +0000
Subject: [PATCH 26/34] fix: lines longer than the read buffer are read as one
 line

---
 step/lex.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/step/lex.go b/step/lex.go
index 8c08ccc..857eca4 100644
--- a/step/lex.go
+++ b/step/lex.go
@@ -66,7 +66,7 @@ func (l *Lexer) Lex() SymbolTable {
 	symbolTable := make(SymbolTable, 0)
 	/* DEBUG : there is a bug with the fact that you didn't the case of that there is only one line in the definition text */
 	for {
-		line, _, err := reader.ReadLine()
+		line, err := readLine(reader)
 
 		if err == io.EOF {
 			break
@@ -118,6 +118,23 @@ func (l *Lexer) Lex() SymbolTable {
 	return symbolTable
 }
 
+// readLine : reads a whole line, however long it is, without its end
+func readLine(reader *bufio.Reader) ([]byte, error) {
+	line, isPrefix, err := reader.ReadLine()
+	if !isPrefix || err != nil {
+		return line, err
+	}
+	whole := append([]byte{}, line...)
+	for isPrefix && err == nil {
+		line, isPrefix, err = reader.ReadLine()
+		whole = append(whole, line...)
+	}
+	if err == io.EOF {
+		err = nil // the file ends with this line
+	}
+	return whole, err
+}
+
 var definitionStart = regexp.MustCompile(`^\s*#\d+\s*=`)
 
 // startsDefinition : the line begins a new definition, given the text
-- 
2.43.0


From 937f92d8ff749a26a9331d54581626039bcc7f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:30 +0000
Subject: [PATCH 27/34] fix: Bowyer-Watson orients tetrahedra the way the
 sphere test expects

---
 meshing/mesh.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/meshing/mesh.go b/meshing/mesh.go
index a3a445e..b59cb3f 100644
--- a/meshing/mesh.go
+++ b/meshing/mesh.go
@@ -170,8 +170,9 @@ func bowyerWatson(points ...r3.Vector) []int {
 		faceSet := make(map[string]faceCheck, 0)
 		for _, tetra := range t {
 			pa, pb, pc, pd := points[tetra.ia], points[tetra.ib], points[tetra.ic], points[tetra.id]
-			// the sphere test assumes a positively oriented tetrahedron
-			if r3.Dot(r3.Cross(r3.Sub(pa, pd), r3.Sub(pb, pd)), r3.Sub(pc, pd)) < 0 {
+			// the sphere test is positive inside when pa, pb, pc appear
+			// counterclockwise seen from pd
+			if r3.Dot(r3.Cross(r3.Sub(pa, pd), r3.Sub(pb, pd)), r3.Sub(pc, pd)) > 0 {
 				pa, pb = pb, pa
 			}
 			if predicates.InSphereFast(pa, pb, pc, pd, point) >= 0 {
-- 
2.43.0


From 815b072094a33ed6cbeb3576dfc1c30217756576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:24 +0000
Subject: [PATCH 28/34] fix: a parallel line is refused whatever the length of
 its direction

---
 r3/line.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/r3/line.go b/r3/line.go
index 9d4f847..9ed2a47 100644
--- a/r3/line.go
+++ b/r3/line.go
@@ -11,10 +11,11 @@ type Plane3D struct {
 }
 
 func (line Line) IntersectPlane(plane Plane3D) Vector {
-	if Dot(plane.Normal, Normalize(line.Direction)) == 0 {
+	slope := Dot(plane.Normal, line.Direction)
+	if slope == 0 {
 		panic("plane and line are parallel. Therefore, no intersection")
 	}
 
-	t := (Dot(plane.Normal, plane.Vector) - Dot(plane.Normal, line.Vector)) / (Dot(plane.Normal, Normalize(line.Direction)))
-	return Add(line.Vector, Normalize(line.Direction).Scaled(t))
+	t := (Dot(plane.Normal, plane.Vector) - Dot(plane.Normal, line.Vector)) / slope
+	return Add(line.Vector, line.Direction.Scaled(t))
 }
-- 
2.43.0


From 08b7f474b1e1171c73215b6ad6d4f336c6c24cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:54 +0000
Subject: [PATCH 29/34] fix: a point on the rounded centre of the seed circle
 has a hash key

---
 triangulate2/util.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/triangulate2/util.go b/triangulate2/util.go
index 78130e8..144e58e 100644
--- a/triangulate2/util.go
+++ b/triangulate2/util.go
@@ -10,6 +10,9 @@ var eps = math.Nextafter(1, 2) - 1
 var infinity = math.Inf(1)
 
 func pseudoAngle(dx, dy float64) float64 {
+	if dx == 0 && dy == 0 {
+		return 0
+	}
 	p := dx / (math.Abs(dx) + math.Abs(dy))
 	if dy > 0 {
 		p = (3 - p) / 4
-- 
2.43.0


From 064a25122d6c9d6a7b4e0c4f54ce214b5299fc5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:57 +0000
Subject: [PATCH 30/34] fix: the sides and circles of nearly collinear points
 are told apart exactly

---
 triangulate2/hull.go |  2 +-
 triangulate2/util.go | 70 +++++++++++++++++++++++++++++++++++++++++---
 2 files changed, 67 insertions(+), 5 deletions(-)

diff --git a/triangulate2/hull.go b/triangulate2/hull.go
index d9d2d6b..91b5429 100644
--- a/triangulate2/hull.go
+++ b/triangulate2/hull.go
@@ -6,7 +6,7 @@ import (
 )
 
 func cross2D(p, a, b r3.Vector) float64 {
-	return (a.X-p.X)*(b.Y-p.Y) - (a.Y-p.Y)*(b.X-p.X)
+	return -area(p, a, b)
 }
 
 // ConvexHull returns the convex hull of the provided Vectors.
diff --git a/triangulate2/util.go b/triangulate2/util.go
index 144e58e..3eec8b2 100644
--- a/triangulate2/util.go
+++ b/triangulate2/util.go
@@ -3,6 +3,7 @@ package triangulate2
 import (
 	"geGoMetry/r3"
 	"math"
+	"math/big"
 )
 
 var eps = math.Nextafter(1, 2) - 1
@@ -22,8 +23,48 @@ func pseudoAngle(dx, dy float64) float64 {
 	return math.Max(0, math.Min(1-eps, p))
 }
 
+// area is twice the area of the triangle abc, negative when it is
+// counter-clockwise. Its sign is right even where rounding would hide it.
 func area(a, b, c r3.Vector) float64 {
-	return (b.Y-a.Y)*(c.X-b.X) - (b.X-a.X)*(c.Y-b.Y)
+	l := (b.Y - a.Y) * (c.X - b.X)
+	r := (b.X - a.X) * (c.Y - b.Y)
+	if d := l - r; math.Abs(d) > 2*eps*(math.Abs(l)+math.Abs(r)) {
+		return d
+	}
+	if !finite(a, b, c) {
+		return l - r
+	}
+	d, _ := sub(mul(diff(b.Y, a.Y), diff(c.X, b.X)), mul(diff(b.X, a.X), diff(c.Y, b.Y))).Float64()
+	return d
+}
+
+func finite(Vectors ...r3.Vector) bool {
+	for _, v := range Vectors {
+		if s := v.X - v.X + v.Y - v.Y; s != 0 {
+			return false
+		}
+	}
+	return true
+}
+
+// exactPrec is enough for every sum of products of four differences of floats
+// to be exact.
+const exactPrec = 9000
+
+func diff(x, y float64) *big.Float {
+	return sub(big.NewFloat(x), big.NewFloat(y))
+}
+
+func sub(x, y *big.Float) *big.Float {
+	return new(big.Float).SetPrec(exactPrec).Sub(x, y)
+}
+
+func add(x, y *big.Float) *big.Float {
+	return new(big.Float).SetPrec(exactPrec).Add(x, y)
+}
+
+func mul(x, y *big.Float) *big.Float {
+	return new(big.Float).SetPrec(exactPrec).Mul(x, y)
 }
 
 //	Thales ++
@@ -44,7 +85,28 @@ func inCircle(a, b, c, p r3.Vector) bool {
 	bp := ex*ex + ey*ey
 	cp := fx*fx + fy*fy
 
-	return dx*(ey*cp-bp*fy)-dy*(ex*cp-bp*fx)+ap*(ex*fy-ey*fx) < 0
+	det := dx*(ey*cp-bp*fy) - dy*(ex*cp-bp*fx) + ap*(ex*fy-ey*fx)
+	size := math.Abs(dx)*(math.Abs(ey*cp)+math.Abs(bp*fy)) + math.Abs(dy)*(math.Abs(ex*cp)+math.Abs(bp*fx)) + ap*(math.Abs(ex*fy)+math.Abs(ey*fx))
+	if math.Abs(det) > 8*eps*size || !finite(a, b, c, p) {
+		return det < 0
+	}
+	return inCircleExact(a, b, c, p)
+}
+
+// inCircleExact decides what rounding leaves open in inCircle.
+func inCircleExact(a, b, c, p r3.Vector) bool {
+	dx, dy := diff(a.X, p.X), diff(a.Y, p.Y)
+	ex, ey := diff(b.X, p.X), diff(b.Y, p.Y)
+	fx, fy := diff(c.X, p.X), diff(c.Y, p.Y)
+
+	ap := add(mul(dx, dx), mul(dy, dy))
+	bp := add(mul(ex, ex), mul(ey, ey))
+	cp := add(mul(fx, fx), mul(fy, fy))
+
+	x := mul(dx, sub(mul(ey, cp), mul(bp, fy)))
+	y := mul(dy, sub(mul(ex, cp), mul(bp, fx)))
+	z := mul(ap, sub(mul(ex, fy), mul(ey, fx)))
+	return add(sub(x, y), z).Sign() < 0
 }
 
 // planarDistance2 returns the squared distance between a and b in the plane of
@@ -63,7 +125,7 @@ func circumradius(a, b, c r3.Vector) float64 {
 
 	bl := dx*dx + dy*dy
 	cl := ex*ex + ey*ey
-	d := dx*ey - dy*ex
+	d := -area(a, b, c)
 
 	x := (ey*bl - dy*cl) * 0.5 / d
 	y := (dx*cl - ex*bl) * 0.5 / d
@@ -85,7 +147,7 @@ func circumcenter(a, b, c r3.Vector) r3.Vector {
 
 	bl := dx*dx + dy*dy
 	cl := ex*ex + ey*ey
-	d := dx*ey - dy*ex
+	d := -area(a, b, c)
 
 	x := a.X + (ey*bl-dy*cl)*0.5/d
 	y := a.Y + (dx*cl-ex*bl)*0.5/d
-- 
2.43.0


From 1b6d13053270a9688758bfa3026f71330bf0ad68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:36 +0000
Subject: [PATCH 31/34] fix: points around a large circle are sorted without
 rounding away their distances

---
 triangulate2/triangulator.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/triangulate2/triangulator.go b/triangulate2/triangulator.go
index 95611a7..14e1320 100644
--- a/triangulate2/triangulator.go
+++ b/triangulate2/triangulator.go
@@ -128,9 +128,12 @@ func (tri *triangulator) triangulate() error {
 	tri.center = circumcenter(Vectors[i0], Vectors[i1], Vectors[i2])
 
 	// sort the Vectors by distance from the seed triangle circumcenter
+	// the squared radius is left out, which would round the differences away
 	tri.squaredDistances = make([]float64, n)
 	for i, p := range Vectors {
-		tri.squaredDistances[i] = planarDistance2(p, tri.center)
+		d := r3.Sub(p, Vectors[i0])
+		c := r3.Sub(tri.center, Vectors[i0])
+		tri.squaredDistances[i] = d.X*(d.X-2*c.X) + d.Y*(d.Y-2*c.Y)
 	}
 	sort.Sort(tri)
 
-- 
2.43.0


From 6f9faefeb76351effaf0dce2777f44cee568651b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:41 +0000
Subject: [PATCH 32/34] fix: Validate reports half-edge links out of range
 instead of crashing

---
 triangulate2/triangulation.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/triangulate2/triangulation.go b/triangulate2/triangulation.go
index d558822..592fad4 100644
--- a/triangulate2/triangulation.go
+++ b/triangulate2/triangulation.go
@@ -39,6 +39,9 @@ func (t *Triangulation) area() float64 {
 func (t *Triangulation) Validate() error {
 	// verify halfedges
 	for i1, i2 := range t.Halfedges {
+		if i2 < -1 || i2 >= len(t.Halfedges) {
+			return fmt.Errorf("invalid halfedge connection")
+		}
 		if i1 != -1 && t.Halfedges[i1] != i2 {
 			return fmt.Errorf("invalid halfedge connection")
 		}
-- 
2.43.0


From cf11c4bf76221445037ac77990c61fa49d7487f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:18 +0000
Subject: [PATCH 33/34] fix: lexing leaves the command line of the program
 alone

Lex called flag.Parse, which ends the program when its command line holds a
flag it has not defined (yet), and is not safe to call from two goroutines.
---
 step/lex.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/step/lex.go b/step/lex.go
index 857eca4..095a587 100644
--- a/step/lex.go
+++ b/step/lex.go
@@ -2,7 +2,6 @@ package step
 
 import (
 	"bufio"
-	"flag"
 	"io"
 	"os"
 	"regexp"
@@ -53,7 +52,6 @@ func initLexer(filename string) Lexer {
 // Lex : parses the step file and fills the symbol
 // table for the parser.
 func (l *Lexer) Lex() SymbolTable {
-	flag.Parse()
 	file, err := os.Open(l.Filename)
 
 	check(err)
-- 
2.43.0


From c88254335b2dbc8c5c6f1caf9118a07da238bec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:04 +0000
Subject: [PATCH 34/34] fix: an export of which only a part could be written is
 reported as a failure

---
 glTF/export.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/glTF/export.go b/glTF/export.go
index d005293..58cdaf6 100644
--- a/glTF/export.go
+++ b/glTF/export.go
@@ -1,8 +1,10 @@
 package glTF
 
 import (
+	"bufio"
 	"fmt"
 	"geGoMetry/shape"
+	"os"
 
 	"github.com/qmuntal/gltf"
 	"github.com/qmuntal/gltf/modeler"
@@ -47,7 +49,25 @@ func Export(mesh shape.Mesh, outputFile string) {
 	}}
 	doc.Nodes = []*gltf.Node{{Name: "Root", Mesh: gltf.Index(0)}}
 	doc.Scenes[0].Nodes = append(doc.Scenes[0].Nodes, 0)
-	if err := gltf.SaveBinary(doc, outputFile); err != nil {
+	if err := saveBinary(doc, outputFile); err != nil {
 		panic(err)
 	}
 }
+
+// saveBinary is gltf.SaveBinary which also reports a file of which only the
+// first part could be written.
+func saveBinary(doc *gltf.Document, name string) error {
+	file, err := os.Create(name)
+	if err != nil {
+		return err
+	}
+	w := bufio.NewWriter(file) // keeps the first error
+	err = gltf.NewEncoder(w).Encode(doc)
+	if e := w.Flush(); err == nil {
+		err = e
+	}
+	if e := file.Close(); err == nil {
+		err = e
+	}
+	return err
+}
-- 
2.43.0

