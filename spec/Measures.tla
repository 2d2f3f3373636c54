------------------------------ MODULE Measures ------------------------------
(***************************************************************************)
(* The measures a planar triangulation rests on, of points <<x, y>> with    *)
(* exact coordinates.                                                       *)
(***************************************************************************)
EXTENDS Planar
\* twice the signed area of abc, negative when counter-clockwise
Turn2(a, b, c) == BSub(BMul(BSub(b[2], a[2]), BSub(c[1], b[1])), BMul(BSub(b[1], a[1]), BSub(c[2], b[2])))
TurnSize(a, b, c) == BAdd(BAbs(BMul(BSub(b[2], a[2]), BSub(c[1], b[1]))), BAbs(BMul(BSub(b[1], a[1]), BSub(c[2], b[2]))))
\* the centre of the circle through abc is a + <<CenterX, CenterY>> / (2 CenterD)
CenterX(a, b, c) == LET d == BVSub(b, a)  e == BVSub(c, a) IN BSub(BMul(e[2], BDot(d, d)), BMul(d[2], BDot(e, e)))
CenterY(a, b, c) == LET d == BVSub(b, a)  e == BVSub(c, a) IN BSub(BMul(d[1], BDot(e, e)), BMul(e[1], BDot(d, d)))
CenterD(a, b, c) == BDet(<<BVSub(b, a), BVSub(c, a)>>)
\* sizes of what cancels in them
CenterXSize(a, b, c) == LET d == BVSub(b, a)  e == BVSub(c, a) IN BAdd(BAbs(BMul(e[2], BDot(d, d))), BAbs(BMul(d[2], BDot(e, e))))
CenterYSize(a, b, c) == LET d == BVSub(b, a)  e == BVSub(c, a) IN BAdd(BAbs(BMul(d[1], BDot(e, e))), BAbs(BMul(e[1], BDot(d, d))))
\* twice the area inside a polygon, positive when counter-clockwise
Shoelace(h) == BSum([i \in 1..Len(h) |-> LET q == h[Nx(h, i)] IN BMul(BSub(h[i][1], q[1]), BAdd(h[i][2], q[2]))])
ShoelaceSize(h) == BSum([i \in 1..Len(h) |-> LET q == h[Nx(h, i)]
                                             IN BMul(BAdd(BAbs(h[i][1]), BAbs(q[1])), BAdd(BAbs(h[i][2]), BAbs(q[2])))])
SideLength2(h, i) == LET d == BVSub(h[i], h[Nx(h, i)]) IN BDot(d, d)
=============================================================================
