#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=None)))

# ---------------------------------------------------------------- STEP reader
p("S01", "A STEP file is read into exactly the instances it defines",
  "Reading a STEP file yields exactly one entry per instance name defined in it, holding the keyword (blanks removed) and the argument texts of the last definition given for that name. "
  "Header and trailer sections, blank lines, CRLF endings, blanks around names, keywords and the final ')' or ';', breaking an instance over lines of any length at any token boundary, and '=', ',', ';', '#' or parentheses inside quoted strings do not change the result, and a file with no instances yields an empty table. "
  "A file that cannot be opened or read is reported to the caller as a failure and never makes reading hang.",
  ["inputs", "fault_sequences"],
  "Every file with at most one instance starting per line (at least one argument each, no comments), any layout of its instances over physical lines, plus missing and unreadable files.",
  "The tests lex two fixed files and only print the table, so no expectation is ever compared; the space of layouts and string contents is unbounded.",
  ["step/lex.go", "step/util.go"],
  [("Lex: line-by-line assembly of the pending instance text", "step/lex.go Lexer.Lex"), ("add/tokenize: identifier, keyword, argument text", "step/lex.go SymbolTable.add, tokenize")],
  [("symbolText", "text of the instance being assembled", "step/lex.go Lex"), ("symbolTable", "instances read so far", "step/lex.go Lex")],
  ["the table returned by reading a file"])
p("S02", "Argument lists split only at their own top-level commas",
  "Splitting an instance's argument text, or a parenthesised list, gives its top-level items in order, each stripped of surrounding blanks and otherwise byte for byte as written (non-ASCII bytes included). "
  "Commas inside nested parentheses or inside quoted strings (with '' as the escaped quote) never split an item, and quoted parentheses do not count as nesting. "
  "A list of lists read as a matrix has exactly the rows and columns written.",
  ["inputs"], "Every argument text generated by the STEP grammar: any nesting depth, item count, string content.",
  "TestGetArray prints one nested list and asserts nothing; correctness must hold for every nesting and every string content.",
  ["step/util.go", "step/lex.go"],
  [("bracket counter and quote tracking", "step/util.go getArguments, getArray, getMatrix")],
  [("openBrackets", "nesting depth of the scan", "step/util.go"), ("argument/element", "item being collected", "step/util.go")],
  ["argument texts in the symbol table", "matrix and list fields reported for a B-spline surface"])
p("S03", "Parsing handles each instance exactly once and always finishes",
  "Parsing any symbol table whose instances carry the arguments their keywords call for (references leading to instances of the kinds called for, or undefined) finishes without crashing and handles every instance defined in it exactly once, whatever order the table is traversed in and however instances reference each other: shared, self-referential, cyclic or undefined references included. "
  "Instances discovered through a reference are handled in discovery order (first in, first out) before the next unreferenced instance is started, and a reference to an undefined name is skipped. "
  "A given table always leads to the same set of handled instances.",
  ["inputs", "schedules", "histories"], "Every reference graph over instances and every (randomised) traversal order of the table.",
  "Go randomises map order, and the tests parse two acyclic files once each with no assertion, so cycles, sharing and other orders are never judged.",
  ["step/parse.go", "step/template.go", "step/bridge.go"],
  [("work queue with visited set", "step/parse.go runInferenceModel"), ("one run per table key", "step/parse.go Parse")],
  [("nextStates", "FIFO of pending (handler, key)", "step/parse.go Parser"), ("visited", "keys already handled", "step/parse.go Parser")],
  ["what parsing prints", "the sequence of handler invocations"])
p("S04", "The parser reports each recognised instance's data as written",
  "For a B-spline surface with knots the parser reports name, both degrees, the control point rows, surface form, the three logical flags (.T. is true, .F. false), both multiplicity lists and both knot lists, each as written and under its own label; for a spherical surface it reports the radius written in it; for an advanced face it follows the surface the face names. "
  "An instance of any other keyword is reported as skipped under that keyword and affects nothing else.",
  ["inputs", "configurations"], "Every well-formed instance of each recognised kind, any values, any surrounding table.",
  "The tests parse one surface and print it; no field is compared with its source.",
  ["step/template.go", "step/bridge.go", "step/job.go", "step/util.go"],
  [("keyword dispatch", "step/bridge.go bridge"), ("field extraction", "step/template.go bSplineSurfaceWithKnots, sphericalSurface, advancedFace"), ("report", "step/job.go print")],
  [], ["what parsing prints"])
# ---------------------------------------------------------------- shapes
p("M01", "Tessellated shapes only index existing vertices, in whole triangles",
  "For every circle, ellipse, sphere and torus at every resolution, the index list is a whole number of triangles and every index refers to an existing vertex of that mesh. "
  "Every vertex location is used by at least one triangle, no triangle uses the same vertex twice, and no triangle (same vertices, same facing) is listed twice.",
  ["inputs", "configurations"], "Every shape kind, centre, radii and resolution (at least 3 sectors, at least 3 stacks, at least 2 stacks for a sphere).",
  "The tests export one mesh per shape without looking at it; index validity depends on the resolution.",
  ["shape/circle.go", "shape/ellipse.go", "shape/sphere.go", "shape/torus.go", "shape/shape.go"],
  [("index generation loops", "shape/*.go generateIndices")], [("Mesh", "vertices and indices", "shape/mesh.go")], ["the mesh returned for a shape"])
p("M02", "Shape vertices lie evenly on the requested surface at the requested place",
  "Every vertex of a tessellated shape lies (within rounding) on the surface asked for, around the centre asked for: a sphere of the radius, a torus about the vertical axis with the ring and tube radii, or the centre followed by points of the circle or ellipse in the horizontal plane through the centre with the two semi-axes along x and y. "
  "Samples are evenly spaced in angle and go once around every full turn (pole to pole for the sphere).",
  ["inputs", "configurations"], "Every centre, positive radii and resolution.",
  "Tests use one centre (the origin) and check no coordinate.",
  ["shape/circle.go", "shape/ellipse.go", "shape/sphere.go", "shape/torus.go", "shape/shape.go"],
  [("vertex generation loops", "shape/*.go generateVertices"), ("constructors", "shape/shape.go")], [], ["the mesh returned for a shape"])
p("M03", "Sphere and torus meshes are closed surfaces facing outward",
  "After identifying coincident vertices and dropping zero-area triangles, every directed edge of a sphere or torus mesh is used by exactly one triangle and its reverse by exactly one other, so the surface has no holes, overlaps or flipped faces. "
  "Its Euler characteristic is 2 for a sphere and 0 for a torus, and its triangles face outward.",
  ["inputs", "configurations"], "Every centre, radii (ring radius greater than tube radius) and resolution.",
  "No test inspects connectivity; a hole or a flipped band still exports.",
  ["shape/sphere.go", "shape/torus.go"],
  [("band and cap indices", "shape/sphere.go, shape/torus.go generateIndices")], [], ["the mesh returned for a shape"])
p("M04", "Circle and ellipse meshes cover the whole disc once on each side",
  "A circle or ellipse mesh with n samples consists of exactly 2n triangles, each joining the centre with two neighbouring rim samples: every neighbouring pair, including last-to-first, occurs exactly once facing up and once facing down. "
  "Hence each side has the full area of the inscribed n-gon with no gap or overlap.",
  ["inputs", "configurations"], "Every centre, radii and resolution of at least 3 samples.",
  "The tests only export one circle and one ellipse.",
  ["shape/circle.go", "shape/ellipse.go"], [("fan indices", "shape/circle.go, shape/ellipse.go generateIndices")], [], ["the mesh returned for a shape"])
p("M05", "Sphere and torus vertices carry unit outward normals and even texture coords",
  "Every sphere and torus vertex has exactly one normal and one texture coordinate. "
  "The normal has unit length and points along the outward surface normal at that vertex; the texture coordinates run evenly from 0 to 1 around each ring and from 0 to 1 across the rings.",
  ["inputs", "configurations"], "Every centre, radii and resolution.",
  "Normals and texture coordinates are not exported, so no test touches them.",
  ["shape/sphere.go", "shape/torus.go"], [("normal and texCoord computation", "shape/sphere.go, shape/torus.go generateVertices")], [], ["the mesh returned for a shape"])
# ---------------------------------------------------------------- export
p("X01", "An exported glTF file reproduces the mesh exactly",
  "Opening an exported file with a glTF reader gives one triangle-list primitive whose positions are the mesh's vertices rounded to single precision in the same order, whose indices are the mesh's indices in the same order, and whose colour is opaque white for every vertex. "
  "The position bounds stored in the file are those of the positions, and the mesh given to the exporter is left unchanged.",
  ["inputs"], "Every non-empty mesh with coordinates in single-precision range, including meshes with more than 65535 vertices.",
  "The tests export four meshes and never read a file back.",
  ["glTF/export.go", "glTF/model.go"], [("mesh to model transfer", "glTF/model.go transferModel"), ("document assembly", "glTF/export.go Export")], [], ["the file written"])
p("X02", "Each output path holds the last mesh exported to it",
  "Over any sequence of exports, each path that was exported to successfully last holds exactly the last mesh exported to it, regardless of what was there before (longer or shorter files, other meshes) and of exports to other paths. "
  "An export that cannot be written is reported to the caller as a failure and changes no other file; exporting the same mesh again gives the same bytes.",
  ["histories", "fault_sequences"], "Every sequence of exports over several paths, including overwrites, repeated exports and unwritable destinations.",
  "Tests write each path once and ignore the result; overwriting and failing histories are not covered.",
  ["glTF/export.go"], [("SaveBinary and error propagation", "glTF/export.go Export")], [("output files", "path to exported mesh", "file system")], ["the files written", "the failure raised"])
# ---------------------------------------------------------------- 2D Delaunay
p("D01", "2D triangulation is Delaunay and tiles the convex hull",
  "For every set of distinct points of the plane that are not all collinear, triangulating succeeds with triangles that all have the same orientation and non-zero area, do not overlap, together cover exactly the convex hull, and use every point as a vertex. "
  "No point lies strictly inside the circumcircle of any triangle (up to rounding).",
  ["inputs"], "Every set of distinct, non-collinear points of moderate range (spacing well above 1e-7, the whole set not within rounding of one line), in any order, including grids and co-circular, collinear and nearly collinear subsets.",
  "The package has no test at all; Delaunay-ness must hold for every point set including degenerate ones.",
  ["triangulate2/triangulator.go", "triangulate2/triangulation.go", "triangulate2/util.go"],
  [("seed triangle, sweep-hull insertion", "triangulate2/triangulator.go triangulate"), ("edge flipping", "triangulate2/triangulator.go legalize"), ("predicates", "triangulate2/util.go inCircle, area, circumradius")],
  [("triangles/halfedges", "growing triangulation", "triangulator"), ("hull", "advancing front", "triangulator")], ["the triangulation returned"])
p("D02", "Half-edges pair up shared edges and the hull is the boundary",
  "In every triangulation returned, two triangles sharing an edge are linked to each other by half-edges running in opposite directions, and exactly the half-edges on the outer boundary are unlinked. "
  "The reported hull lists exactly the boundary vertices once each, in order along the boundary, and equals (as a cyclic sequence, collinear boundary points included) the convex hull computed separately for the same points.",
  ["inputs"], "Every set of distinct, non-collinear points of the kind described for the triangles themselves: moderate range, spacing well above 1e-7.",
  "No test exists; links must stay consistent through every sequence of flips and hull updates.",
  ["triangulate2/triangulator.go", "triangulate2/node.go"],
  [("link", "triangulate2/triangulator.go link, addTriangle, legalize"), ("hull ring", "triangulate2/node.go newNode, remove")],
  [("halfedges", "twin of each half-edge or -1", "triangulator"), ("hull", "circular list of boundary nodes", "node.go")], ["the triangulation returned"])
p("D03", "The convex hull is the minimal enclosing polygon of the points",
  "For every point list with at least two distinct points, the convex hull consists of input points only, lists each location at most once in counter-clockwise order when the points are not all collinear, turns right nowhere, and every input point lies inside it or on its boundary. "
  "Points lying on hull edges are kept, the input list is not modified, and the result is empty only when there are fewer than two distinct points.",
  ["inputs"], "Every list of points (duplicates, collinear runs, any order), different points being well over 1e-7 apart.",
  "No test exists.",
  ["triangulate2/hull.go"], [("monotone chain", "triangulate2/hull.go ConvexHull")], [("U, L", "upper and lower chains", "hull.go")], ["the hull returned"])
p("D04", "Inputs without a triangulation are refused, never crash",
  "Triangulating never crashes or hangs: an empty input gives an empty triangulation, and a single point, coincident points or points that are all collinear give an error and no triangles. "
  "Every input with three non-collinear points succeeds, also when it contains duplicates of points.",
  ["inputs"], "Every finite list of points for crashing; every list of integer-valued points of moderate size in any power-of-two unit, and of nearly collinear ones well above rounding, for being accepted or refused.",
  "No test exists; the error paths and tiny inputs are never run.",
  ["triangulate2/triangulator.go", "triangulate2/triangulation.go"], [("seed selection and error return", "triangulate2/triangulator.go triangulate")], [], ["the error returned", "the triangulation returned"])
p("D05", "2D triangulation depends only on the planar point set",
  "Reordering the points, repeating points, changing their z coordinates, translating them or scaling them by a power of two does not change which triangles (as sets of planar locations) are produced, as long as no four points are co-circular. "
  "Triangulating the same list twice gives identical results and the caller's points are never modified.",
  ["inputs", "histories"], "Every general-position set of integer-valued points of moderate size and every composition of these transformations that keeps the coordinates exact and different points well over 1e-7 apart.",
  "No test exists; this relates pairs of runs.",
  ["triangulate2/triangulator.go", "triangulate2/util.go"], [("planar predicates and distances", "triangulate2/util.go"), ("sorting of ids", "triangulate2/triangulator.go Less")], [], ["the triangulation returned"])
p("D06", "Validation accepts sound triangulations and rejects broken ones",
  "Validating any triangulation obtained from triangulating integer-valued points of moderate size reports no error. "
  "Validating one whose half-edge links are not mutual, or whose triangle area, hull area or hull perimeter disagrees with the convex hull of its points, reports an error; validation modifies nothing.",
  ["inputs", "fault_sequences"], "Every triangulation and every single corruption of its links, triangles or hull.",
  "No test exists.",
  ["triangulate2/triangulation.go", "triangulate2/util.go"], [("Validate", "triangulate2/triangulation.go Validate"), ("polygonArea, polygonPerimeter", "triangulate2/util.go")], [], ["the error returned"])
p("D07", "Planar measures have their geometric meaning",
  "The area and turn of three points have exactly the sign of their orientation and, up to rounding, the size of their area; the circumcentre is equally far from the three corners and the squared circumradius is that distance squared, infinite when the corners are on one line. "
  "For a triangle in the orientation the triangulator keeps (clockwise), the in-circle test is true exactly when the fourth point is strictly inside the circle through the corners. "
  "A polygon's area is its signed area (positive counter-clockwise) and its perimeter the sum of its side lengths, from whichever corner it is listed.",
  ["inputs"], "Every triangle, quadruple and polygon of points with integer-valued coordinates (to 2^24) in any power-of-two unit.",
  "The package has no test at all.",
  ["triangulate2/util.go"],
  [("predicates with fallback to exact arithmetic", "triangulate2/util.go area, cross2D, inCircle"), ("circle measures", "triangulate2/util.go circumcenter, circumradius"), ("polygon sums", "triangulate2/util.go polygonArea, polygonPerimeter")], [], ["the value returned"])
# ---------------------------------------------------------------- 3D
p("B01", "3D triangulation lists exactly Delaunay faces of the points",
  "For every set of points in general position, the incremental 3D triangulation returns whole triangles over the input points, each listed exactly twice (once per side), and every listed triangle is a Delaunay face: some sphere through its three points contains no other input point. "
  "Every tetrahedron of input points whose circumsphere contains no other point and stays within the bounding box enlarged by one box size on each side has all four faces listed.",
  ["inputs", "histories"], "Every list of points with no four coplanar and no five co-spherical, in any insertion order.",
  "The only test prints the result for one point set.",
  ["meshing/mesh.go", "meshing/helper.go", "predicates/insphere.go"],
  [("cavity search and re-triangulation", "meshing/mesh.go bowyerWatson, connect"), ("enclosing tetrahedron", "meshing/mesh.go englobe"), ("insphere", "predicates/insphere.go InSphereFast")],
  [("tetrahedrisation", "current set of tetrahedra", "meshing/mesh.go"), ("faceSet", "faces of the cavity and whether shared", "meshing/mesh.go bowyerWatson")], ["the list of faces returned"])
p("B02", "Enclosing tetrahedra strictly contain every input point",
  "The starting tetrahedron built around a point list, by either 3D triangulator, is non-degenerate and strictly contains every point of the list, also when all points are equal, collinear or coplanar. "
  "The axis-aligned extents computed on the way are exactly the smallest and largest coordinates, and the points themselves are kept, in order, after the four new corners where these are prepended.",
  ["inputs"], "Every non-empty list of points with coordinates up to a million in magnitude.",
  "TestEnglobe prints a message instead of failing, for one list; the triangulate3 tests do not compile.",
  ["meshing/mesh.go", "meshing/helper.go", "triangulate3/englober.go"],
  [("extents and tetra corners", "meshing/helper.go findExtremas, computerInitialTetraPoints"), ("englobe", "meshing/mesh.go"), ("cone over the box", "triangulate3/englober.go constructEnglobingTetra")], [], ["the tetrahedron returned"])
p("B03", "Orientation and in-sphere tests have the exact sign",
  "For coordinates where the arithmetic is exact (integers up to a few hundred), the in-sphere test is positive, zero or negative exactly when the fifth point is inside, on or outside the sphere through the first four, if the first three appear counterclockwise seen from the fourth (mirrored if clockwise); the orientation test is positive, zero or negative exactly when the first three appear clockwise, edge-on or counterclockwise seen from the fourth. "
  "For arbitrary coordinates the error-bounded in-sphere test never reports the wrong side: it is either zero or of the exact sign, and it is not zero when the exact value is well above the rounding level.",
  ["inputs"], "All five-tuples of points.",
  "The package has no tests.",
  ["predicates/insphere.go", "predicates/orient3d.go", "predicates/util.go"],
  [("InSphereFast, inSphere with error bound", "predicates/insphere.go"), ("orient3dfast", "predicates/orient3d.go")], [], ["the value returned"])
p("B04", "Point-in-tetrahedron agrees with geometry for any orientation",
  "For every non-degenerate tetrahedron, in any vertex order, the containment test is true exactly for points inside it or on its boundary, and the same-side test is true exactly when the two points are not strictly on opposite sides of the plane of the triangle. "
  "Both copies of the test (in the two 3D triangulators) agree.",
  ["inputs"], "All tetrahedra and points with integer-valued coordinates, in any power-of-two unit.",
  "Tests use it only to print messages or do not compile.",
  ["meshing/util.go", "triangulate3/util.go", "r3/vector.go"], [("sameSide/vectorInTetrahedron", "meshing/util.go"), ("SameSide/VectorInTetrahedron", "triangulate3/util.go")], [], ["the truth value returned"])
p("B05", "The initial simplex is made of extreme input points and is not flat",
  "The starting simplex chosen from a point list consists of points of the list: one with the smallest x, one with the largest x, one farthest from the line through those two, and one farthest from the plane of those three. "
  "It has non-zero volume whenever the x extent is not zero and the points are not all coplanar. The two distance measures it is chosen by are the squared length of the cross product of the edges and, up to sign, their triple product.",
  ["inputs"], "Every list of points with integer-valued coordinates in any power-of-two unit, with non-zero x extent, that is not coplanar.",
  "The test file of that package does not compile.",
  ["triangulate3/gdel3d.go", "triangulate3/util.go"], [("extreme and farthest point selection", "triangulate3/gdel3d.go"), ("distance measures", "triangulate3/util.go Get2Ddist, Get3Ddist")], [], ["the four points returned"])
p("B06", "Inserting a point splits a tetrahedron into four, facing both ways",
  "Inserting a point into a single tetrahedron keeps its four vertices, appends the point, and yields exactly the faces of the four tetrahedra joining the point to each original face: after insertion every original face is listed once per facing and every new inner face twice per facing. "
  "Reverse duplication of an index list keeps the list and appends it reversed.",
  ["inputs"], "Every tetrahedron and point.",
  "No test calls it.",
  ["meshing/flip.go", "meshing/util.go"], [("flip14", "meshing/flip.go"), ("duplicateInReverse", "meshing/util.go")], [("Meshing.vertices, indices", "the mesh being refined", "meshing/mesh.go")], ["the mesh after insertion"])
p("B07", "Nearest point, centroid and extents queries are exact",
  "The nearest-point query returns a point of the list whose distance to the query is minimal; the centroid of four points is their coordinate-wise mean; the extents of a list are its smallest and largest coordinates along each axis. "
  "None of these modifies its input.",
  ["inputs"], "Every non-empty list of points, including ties, duplicates, negative and large coordinates.",
  "TestSort prints one answer.",
  ["meshing/helper.go", "meshing/util.go", "meshing/mesh.go", "triangulate3/englober.go", "triangulate3/util.go"],
  [("linear scans", "meshing/helper.go getNearestPoint, findExtremas"), ("computeBoundingBoxForVectors", "triangulate3/englober.go"), ("findCentroid", "meshing/util.go, triangulate3/util.go")], [], ["the values returned"])
# ---------------------------------------------------------------- NURBS
p("N01", "A curve point equals the B-spline definition",
  "For every degree, control polygon, non-decreasing integer knot vector (no knot repeated more than degree+1 times, non-empty first and last span) and parameter in the valid range, end included, the computed curve point equals the B-spline sum of basis functions times control points within rounding. "
  "Consequently it interpolates the end control points of a clamped curve, depends only on the degree+1 control points of its span, and reproduces a constant control polygon. Evaluating a curve leaves its control points and knots unchanged.",
  ["inputs", "configurations"], "Every degree, knot vector, control polygon and parameter in range.",
  "The only test prints one point of one curve.",
  ["nurbs/curve.go", "nurbs/basis.go"], [("curvePoint", "nurbs/curve.go"), ("findSpan, basisFuns", "nurbs/basis.go")], [], ["the point returned"])
p("N02", "Knot span lookup always ends on the span containing the parameter",
  "For every knot vector as above, looking up the span of a parameter terminates and returns the index of the knot interval that contains it, with the end of the range belonging to the last interval; parameters before or after the range get the first or last interval. "
  "The degree+1 basis function values on that span are non-negative and sum to one for parameters in range, and equal the recursive definition.",
  ["inputs", "configurations"], "Every degree, knot vector and parameter (in or out of range).",
  "One lookup is exercised, without assertion; the source notes that the search is not robust.",
  ["nurbs/basis.go"], [("binary search", "nurbs/basis.go findSpan"), ("triangular recurrence", "nurbs/basis.go basisFuns")], [("low, mid, high", "search window", "nurbs/basis.go findSpan"), ("left, right, saved", "recurrence state", "nurbs/basis.go basisFuns")], ["the span and basis values"])
p("N03", "Basis derivatives are the derivatives of the basis functions",
  "For every degree, knot vector, integer parameter and order up to the degree, row 0 of the derivative table equals the basis function values and row k equals their k-th derivatives on that span. "
  "Hence row 0 sums to one and every other row sums to zero.",
  ["inputs", "configurations"], "Every degree up to the tested bound, knot vector, integer parameter within a non-empty span and order.",
  "No test calls it.",
  ["nurbs/basis.go"], [("dersBasisFuns", "nurbs/basis.go")], [("ndu, a", "basis and knot-difference tables", "nurbs/basis.go dersBasisFuns")], ["the derivative table"])
# ---------------------------------------------------------------- vectors
p("R01", "Vector operations compute their definition and touch only their receiver",
  "Over any sequence of vector operations, each in-place operation leaves in its receiver exactly the component-wise mathematical result and each value-returning operation returns it; apart from that receiver no operand changes, also when operands are the same vector. "
  "In-place and value-returning forms of addition, subtraction, scaling and absolute value agree, dot product, cross product, interpolation and squared norms follow their definitions.",
  ["inputs", "histories"], "Every sequence of operations over a set of vectors, including aliased operands.",
  "No test exercises vector arithmetic.",
  ["r3/vector.go"], [("in-place and pure operations", "r3/vector.go")], [("X, Y, Z", "components", "r3/vector.go Vector")], ["the vectors after each operation"])
p("R02", "Lengths, distances and normalisation are consistent",
  "Normalising a non-zero vector, in place or by value, gives a vector of length one pointing the same way, and normalising the zero vector gives the zero vector; the unit test is true exactly for vectors whose squared length is within 5e-14 of one (up to rounding), which every normalised vector is. "
  "Norm and magnitude are the non-negative root of the squared length, and distances are the norm of the difference, symmetric in their arguments.",
  ["inputs"], "Every vector of moderate magnitude, including the zero vector and single-axis vectors.",
  "No test exists.",
  ["r3/vector.go"], [("Normalize (both), Norm, IsUnit, Distance", "r3/vector.go")], [], ["the values returned"])
p("R03", "Line-plane intersections and plane distances are exact",
  "Intersecting a line with a plane it is not parallel to gives the point that lies both on the line and on the plane (within rounding), whatever the lengths of the direction and normal vectors; a parallel line is refused. "
  "A plane built from a normal and an origin has distance zero at the origin, and for a unit normal the distance of any point is its signed distance to the plane; the normal of three points is perpendicular to both edges, non-zero unless they are in line, and follows the right-hand rule.",
  ["inputs"], "Every line and plane with integer-valued components (non-zero direction and normal), each operand in any power-of-two unit.",
  "TestIntersection stops at its own parallel case; distances are untested.",
  ["r3/line.go", "r3/plane.go", "r3/vector.go"], [("IntersectPlane", "r3/line.go"), ("newPlane, calculateNormal", "r3/plane.go"), ("CalculateDistanceToPlane", "r3/vector.go")], [], ["the point or distance returned", "the refusal"])

# ---------------------------------------------------------------- all packages
p("C01", "Calls do not influence one another, in sequence or at the same time",
  "A call into any of the libraries (reading STEP text, tessellating, exporting, triangulating, evaluating curves, vector and plane operations) on its own arguments gives the answer it gives when it is the only call its process ever makes, whatever other calls were made before it, and whatever the command line of the program. "
  "The same holds for calls made at the same time from several goroutines on separate data: they never access shared memory without ordering, crash, or wait for each other forever, and results already returned are not changed by later calls.",
  ["histories", "schedules"], "Every sequence, and every interleaving from several goroutines, of calls on separate arguments (separate files for exports; not what parsing prints to the one standard output, and not operations on the shared zero vector).",
  "Tests make each call once in a fresh process from one goroutine, so state kept between calls can never show.",
  ["step/lex.go", "step/util.go", "shape/shape.go", "glTF/export.go", "triangulate2/triangulator.go", "triangulate2/hull.go", "meshing/mesh.go", "triangulate3/gdel3d.go", "predicates/insphere.go", "r3/vector.go", "nurbs/basis.go", "nurbs/curve.go"],
  [("package-level variables and caches (none kept between calls today)", "every package"), ("working storage allocated per call", "triangulate2/triangulator.go, nurbs/basis.go, meshing/mesh.go")], [("calls in progress", "per goroutine: the call it is in", "the callers")], ["the answer of each call", "unordered accesses reported by the race detector"])
p("C02", "Calls give back what they take from the system, however they end",
  "Every call into the libraries leaves the process as it found it, whether it succeeds or fails (missing or unreadable files, destinations that cannot be written or become full): no file stays open and no goroutine stays running, however many calls are made. "
  "It does not change the working directory or the environment, and creates, changes or removes no file but the output path it was given.",
  ["histories", "fault_sequences"], "Every history of calls, successful and failing ones mixed.",
  "Tests make one successful call per process, and a file left open shows only after many calls or when a call fails.",
  ["step/lex.go", "step/parse.go", "glTF/export.go", "shape/shape.go", "triangulate2/triangulation.go", "meshing/mesh.go"],
  [("closing of the file read", "step/lex.go Lex"), ("writing and closing of the output file", "glTF/export.go Export")], [("open files and goroutines", "what the process holds", "the process")],
  ["open file descriptors, goroutines, directory, environment and surrounding files after each call"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties;", [len(x["title"]) for x in P if len(x["title"]) > 80])
