---------------------------- MODULE Trace_Planar ----------------------------
(***************************************************************************)
(* Recorded hulls and triangulations (D01-D06).  A record:                  *)
(*   P       the points as given, exact coordinates over one power of two   *)
(*   loc     loc[i+1]: the first point at the place of point i              *)
(*   sorted  those first points (from 0), in increasing order of (x, y)     *)
(*   idx, half, hull, chull   the result; hull entries <<place, point>>:    *)
(*           place = loc of the point or -1, point 1 if it is an input      *)
(*   order, twin   certificate of Mesh for the triangles by place           *)
(***************************************************************************)
EXTENDS TraceLoop, Measures, Mesh

XYs(r)    == TLCEval([i \in 1..Len(r.P) |-> <<r.P[i][1], r.P[i][2]>>])
\* places are what they say
PlacesOk(r, p) ==
  /\ \A i \in 1..Len(p) : p[r.loc[i] + 1] = p[i] /\ r.loc[i] <= i - 1
  /\ Cardinality({p[i] : i \in 1..Len(p)}) = Len(r.sorted)
  /\ \A k \in 1..Len(r.sorted) : r.loc[r.sorted[k] + 1] = r.sorted[k]
  /\ \A k \in 1..(Len(r.sorted) - 1) : LexLess(p[r.sorted[k] + 1], p[r.sorted[k+1] + 1])
\* the hull as places, by the machine of Planar
ChainOf(r, p) == LET h == Chain([k \in 1..Len(r.sorted) |-> p[r.sorted[k] + 1]])
                     place == [q \in {p[r.sorted[k] + 1] : k \in 1..Len(r.sorted)} |->
                                 r.sorted[CHOOSE k \in 1..Len(r.sorted) : p[r.sorted[k] + 1] = q]]
                 IN [i \in 1..Len(h) |-> place[h[i]]]
Flat(r, p) == AllCollinear([k \in 1..Len(r.sorted) |-> p[r.sorted[k] + 1]])

\* how far inside the circle of triangle t point q may seem to be: rounding
\* of the in-circle determinant (zero for whole numbers of moderate size)
Slack(r) == IF r.exact THEN BZero ELSE BMul(BSq(BSq(r.size)), BPow2(8))
InsideBy(p, t, q) ==       \* the determinant, scaled by 2^44
  LET Row(x) == LET d == BVSub(x, q) IN <<d[1], d[2], BDot(d, d)>>
      s == Orient(t[1], t[2], t[3])
  IN BMul(BPow2(44), BMul(BInt(s), BDet(<<Row(t[1]), Row(t[2]), Row(t[3])>>)))
Corners(r, p, t) == <<p[Corner(r, t, 1) + 1], p[Corner(r, t, 2) + 1], p[Corner(r, t, 3) + 1]>>
OppositeOf(r, h) == r.idx[IF h % 3 = 1 THEN h + 2 ELSE h - 1]     \* corner not on side h
LocalOk(r, p) == \A i \in 1..Len(r.order) :
  LET h == r.order[i]  g == r.twin[h]
  IN g > h => BLeq(InsideBy(p, Corners(r, p, (h + 2) \div 3), p[OppositeOf(r, g) + 1]), Slack(r))
GlobalOk(r, p) == \A t \in 1..NTri(r) : \A k \in 1..Len(r.sorted) :
  BLeq(InsideBy(p, Corners(r, p, t), p[r.sorted[k] + 1]), Slack(r))
StrictlyDelaunay(r, p) == \A i \in 1..Len(r.order) :
  LET h == r.order[i]  g == r.twin[h]  c == Corners(r, p, (h + 2) \div 3)
  IN g > h => InCircle(c[1], c[2], c[3], p[OppositeOf(r, g) + 1]) < 0

\* sound triangles: the mesh clauses of D01 for one list of triangles
WhyTiling(r, p) ==
  IF ~(WholeTriangles(r) /\ InRange(r)) THEN {"an index refers to no point"}
  ELSE IF NTri(r) = 0 THEN {"no triangles"}
  ELSE IF ~\A t \in 1..NTri(r) : Proper(LocTri(r, t)) THEN {"a triangle uses a place twice"}
  ELSE LET s == LET c == Corners(r, p, 1) IN Orient(c[1], c[2], c[3])
           once == CertEdgesOnce(r, 1..NTri(r))
           hull == TLCEval(ChainOf(r, p))
           open == {r.order[i] : i \in {j \in 1..Len(r.order) : r.twin[r.order[j]] = 0}}
       IN Need("a triangle has no area", s # 0)
          \cup Need("triangles are not all turned the same way",
                    \A t \in 1..NTri(r) : LET c == Corners(r, p, t) IN Orient(c[1], c[2], c[3]) = s)
          \cup Need("two triangles overlap along an edge", once)
          \cup Need("twins", once => \A i \in 1..Len(r.order) :
                    LET h == r.order[i]  g == r.twin[h]
                    IN g = 0 \/ (r.twin[g] = h /\ From(r, g) = To(r, h) /\ To(r, g) = From(r, h)))
          \cup Need("the outline is not the convex hull", once =>
                    /\ Cardinality(open) = Len(hull)
                    /\ {<<From(r, h), To(r, h)>> : h \in open} = CycleEdges(hull, s))
          \cup Need("a point is not used", LocsUsed(r) = {r.sorted[k] : k \in 1..Len(r.sorted)})
          \cup Need("a point lies inside of a circumcircle", once => LocalOk(r, p))
          \cup Need("a point lies inside of some circumcircle", Len(r.sorted) <= 24 => GlobalOk(r, p))
\* ------------------------------------------------------------------- D01
WhyDelaunay(r) ==
  IF r.status # "ok" THEN {r.status}
  ELSE LET p == XYs(r)
       IN Need("record", PlacesOk(r, p)) \cup Need("record, flat", ~Flat(r, p))
          \cup (IF r.err THEN {"an error was reported"} ELSE WhyTiling(r, p))
\* ------------------------------------------------------------------- D02
NextSide(h) == IF h % 3 = 0 THEN h - 2 ELSE h + 1      \* from 1
WhyHalf(r) ==
  IF r.status # "ok" THEN {r.status}
  ELSE IF r.err THEN {"an error was reported"}
  ELSE IF ~(WholeTriangles(r) /\ InRange(r)) THEN {"an index refers to no point"}
  ELSE IF Len(r.half) # Len(r.idx) THEN {"one half-edge link per side"}
  ELSE IF ~\A h \in 1..Len(r.half) : r.half[h] >= -1 /\ r.half[h] < Len(r.half) THEN {"a link leads nowhere"}
  ELSE LET p == XYs(r)
           G(h) == r.half[h] + 1                        \* 0 for none
           s == LET c == Corners(r, p, 1) IN Orient(c[1], c[2], c[3])
           chain == TLCEval(ChainOf(r, p))
           places == [i \in 1..Len(r.hull) |-> r.hull[i][1]]
           open == {h \in 1..Len(r.half) : G(h) = 0}
       IN Need("record", PlacesOk(r, p))
          \cup Need("links are not mutual", \A h \in 1..Len(r.half) : G(h) # 0 => G(G(h)) = h /\ G(h) # h)
          \cup Need("linked half-edges do not run in opposite directions",
                    \A h \in 1..Len(r.half) : G(h) # 0 => From(r, G(h)) = To(r, h) /\ To(r, G(h)) = From(r, h))
          \cup Need("a shared edge is not linked", CertEdgesOnce(r, 1..NTri(r)) => \A h \in open : r.twin[h] = 0)
          \cup Need("unlinked half-edges are not the outline", {<<From(r, h), To(r, h)>> : h \in open} = CycleEdges(chain, s))
          \cup Need("the hull is not the outline in order", SameCycle(places, chain))
          \cup Need("the hull differs from the convex hull of the points",
                    SameCycle(places, [i \in 1..Len(r.chull) |-> r.chull[i][1]]))
          \cup Need("a hull entry is no input point", \A i \in 1..Len(r.hull) : r.hull[i][2] = 1)
\* ------------------------------------------------------------------- D03
WhyHull(r) ==
  IF r.status # "ok" THEN {r.status}
  ELSE LET p == XYs(r)
           ps == TLCEval([k \in 1..Len(r.sorted) |-> p[r.sorted[k] + 1]])
           flat == Flat(r, p)
           members == \A i \in 1..Len(r.hull) : r.hull[i][1] >= 0 /\ r.hull[i][2] = 1
           h == TLCEval([i \in 1..Len(r.hull) |-> p[r.hull[i][1] + 1]])
       IN Need("record", PlacesOk(r, p))
          \cup Need("the points were changed", r.same)
          \cup Need("empty exactly below two distinct points", (r.hull = <<>>) = (Len(ps) < 2))
          \cup (IF ~members THEN {"a hull entry is no input point"}
                ELSE IF flat THEN
                  Need("the ends of collinear points", Len(ps) >= 2 =>
                       \E i, j \in 1..Len(h) : h[i] = ps[1] /\ h[j] = ps[Len(ps)])
                ELSE Need("not the minimal enclosing polygon", IF Len(ps) <= 60 THEN HullMeans(h, ps) ELSE TRUE)
                     \cup Need("not the minimal enclosing polygon (machine)", SameCycle(h, Chain(ps))))
\* ------------------------------------------------------------------- D04
\* r.wide: magnitudes so far apart that rounding decides which answer is given;
\* there must be one, and a refusal comes without triangles
WhyRefusal(r) ==
  IF r.status # "ok" THEN {r.status}
  ELSE IF r.wide THEN Need("the points were changed", r.same)
                      \cup Need("triangles without area", r.err => r.idx = <<>>)
  ELSE LET p == XYs(r)
       IN Need("record", PlacesOk(r, p))
          \cup (IF Len(p) = 0 THEN Need("empty input", ~r.err /\ r.idx = <<>>)
                ELSE IF Flat(r, p) THEN Need("an input without triangulation was accepted", r.err)
                                        \cup Need("triangles without area", r.idx = <<>>)
                ELSE Need("an input with a triangulation was refused", ~r.err)
                     \cup Need("no triangles", r.idx # <<>>))
          \cup Need("the points were changed", r.same)
\* ------------------------------------------------------------------- D05
\* r.alts: results for transformed points, indices already mapped back to the
\* points of r; where the change keeps the circles strictly empty the set of
\* triangles is the same
TriSets(loc, idx) == {{loc[idx[3*t-2] + 1], loc[idx[3*t-1] + 1], loc[idx[3*t] + 1]} : t \in 1..(Len(idx) \div 3)}
WhySame(r) ==
  IF r.status # "ok" THEN {r.status}
  ELSE LET p == XYs(r)
           base == TriSets(r.loc, r.idx)
       IN Need("record", PlacesOk(r, p)) \cup Need("record, flat", ~Flat(r, p))
          \cup Need("an error was reported", ~r.err)
          \cup Need("the points were changed", r.same)
          \cup Need("the same points again give another result", r.again)
          \cup UNION {LET a == r.alts[k]
                      IN IF a.status # "ok" THEN {a.kind \o ": " \o a.status}
                         ELSE Need(a.kind \o ": an error was reported", ~a.err)
                              \cup Need(a.kind \o ": the points were changed", a.same)
                              \cup Need(a.kind \o ": the same points again give another result", a.again)
                              \cup Need(a.kind \o ": other triangles",
                                        (~r.err /\ ~a.err /\ WhyTiling(r, p) = {} /\ StrictlyDelaunay(r, p)) =>
                                           Len(a.idx) % 3 = 0 /\ Len(a.idx) = Len(r.idx) /\ TriSets(r.loc, a.idx) = base)
                      : k \in 1..Len(r.alts)}
\* ------------------------------------------------------------------- D06
\* twice the area of the triangles, signed and unsigned
TriArea(r, p, t) == LET c == Corners(r, p, t) IN BDet(<<BVSub(c[2], c[1]), BVSub(c[3], c[1])>>)
\* r.hullXY: the (possibly changed) hull's points, exact. r.roots[i]: root of the
\* squared length of side i times 2^80, rounded down; hroots: of the true hull
RootOk(w, d) == LET x == BMul(d, BPow2(80)) IN BSgn(w) >= 0 /\ BLeq(BSq(w), x) /\ BLess(x, BSq(BAdd(w, BOne)))
Side2(h, i) == LET d == BVSub(h[i], h[Nx(h, i)]) IN BDot(d, d)
WhyValid(r) ==
  IF r.status # "ok" THEN {r.status}
  ELSE LET p == XYs(r)
           chain == TLCEval(LET c == ChainOf(r, p) IN [i \in 1..Len(c) |-> p[c[i] + 1]])
           hull == TLCEval(r.hullXY)
           mutual == \A i \in 1..Len(r.half) : \/ r.half[i] = -1
                                               \/ r.half[i] \in 0..(Len(r.half) - 1) /\ r.half[r.half[i] + 1] = i - 1
           signed == BAbs(BSum([t \in 1..NTri(r) |-> TriArea(r, p, t)]))
           sum == BSum([t \in 1..NTri(r) |-> BAbs(TriArea(r, p, t))])
           area == Area2(chain)
           \* differences of at least a millionth are beyond rounding (coordinates are in units of 2^-e)
           Off(x, y) == BLess(BPow2(2 * r.e), BMul(BInt(1000000), BAbs(BSub(x, y))))
           len(w) == BSum(w)
           must == \/ ~mutual
                   \/ (Off(sum, area) /\ Off(signed, area))
                   \/ Off(BAbs(Area2(hull)), area)
                   \/ BLess(BPow2(20 + r.e), BAbs(BSub(len(r.roots), len(r.hroots))))       \* 2^20 of 2^40
       IN Need("record", /\ PlacesOk(r, p) /\ Len(r.roots) = Len(hull) /\ Len(r.hroots) = Len(chain)
                         /\ \A i \in 1..Len(hull) : RootOk(r.roots[i], Side2(hull, i))
                         /\ \A i \in 1..Len(chain) : RootOk(r.hroots[i], Side2(chain, i)))
          \cup Need("a sound triangulation is rejected", r.changed \/ ~r.bad)
          \cup Need("a broken triangulation is accepted", must => r.bad)
          \cup Need("validation changed the triangulation", r.same)
          \cup Need("validating again gives another answer", r.again)
\* ------------------------------------------------------------------- D07
\* r.P: points in units of 2^-r.e; r.v: the result times 2^r.f, exact (r.inf: it
\* is infinite, r.nan: it is not a number).  The tolerances are multiples of the
\* rounding of the terms which cancel.
Tol(k, x) == BMul(BPow2(k), x)
Near(k, x, y, size) == BLeq(BMul(BPow2(k), BAbs(BSub(x, y))), size)      \* |x - y| <= size / 2^k
V(r, i, k) == BMul(r.v[i], BPow2(k * r.e))       \* result i, a k-th power of length, in units, times 2^f
U(r, x) == BMul(x, BPow2(r.f))
WhyMeasure(r) ==
  IF r.status # "ok" THEN {r.status}
  ELSE LET p == XYs(r)
           flat == Len(p) >= 3 /\ Orient(p[1], p[2], p[3]) = 0
           finite == ~r.inf /\ ~r.nan
           D == CenterD(p[1], p[2], p[3])
           S == TurnSize(p[1], p[2], p[3])
           NX == CenterX(p[1], p[2], p[3])  NY == CenterY(p[1], p[2], p[3])
           MX == CenterXSize(p[1], p[2], p[3])  MY == CenterYSize(p[1], p[2], p[3])
       IN Need("the points were changed", r.same) \cup
          CASE r.kind \in {"area", "cross2D"} ->
                 LET t == Turn2(p[1], p[2], p[3])
                     w == IF r.kind = "area" THEN t ELSE BNeg(t)
                 IN IF ~finite THEN {"not finite"}
                    ELSE Need("not the sign of the turn", BSgn(r.v[1]) = BSgn(w))
                         \cup Need("not twice the area", Near(46, V(r, 1, 2), U(r, w), U(r, S)))
            [] r.kind = "inCircle" ->      \* p[1..3] clockwise
                 Need("not whether the point is strictly inside", r.in = (InCircle(p[1], p[2], p[3], p[4]) > 0))
            [] r.kind = "circumcenter" ->
                 IF flat THEN {}
                 ELSE IF ~finite THEN {"not finite"}
                 ELSE LET At(i, n, m) ==
                            LET x == BSub(V(r, i, 1), U(r, p[1][i]))
                            IN Near(44, BMul(BMul(BInt(2), D), x), U(r, n),
                                    BAdd(U(r, m), BMul(BInt(2), BAdd(BMul(BAbs(x), S), BMul(BAbs(D), BAdd(BAbs(V(r, i, 1)), BAbs(U(r, p[1][i]))))))))
                      IN Need("not the centre of the circle", At(1, NX, MX) /\ At(2, NY, MY))
            [] r.kind = "circumradius" ->  \* squared
                 IF flat THEN Need("no circle, but a radius", r.inf)
                 \* two corners within rounding of each other
                 ELSE IF r.inf /\ Near(44, NX, BZero, MX) /\ Near(44, NY, BZero, MY) THEN {}
                 ELSE IF ~finite THEN {"not finite"}
                 ELSE LET R == V(r, 1, 2)
                          near == BAdd(U(r, BAdd(BMul(BAbs(NX), MX), BMul(BAbs(NY), MY))),
                                       BAdd(BMul(BInt(8), BMul(R, BMul(BAbs(D), S))), BMul(BInt(4), BMul(R, BSq(D)))))
                          far == BAdd(U(r, BAdd(BSq(MX), BSq(MY))), BMul(BInt(4), BMul(R, BSq(S))))
                      IN Need("not the squared radius of the circle",
                              /\ BSgn(R) > 0
                              /\ Near(84, BMul(BInt(4), BMul(BSq(D), R)), U(r, BAdd(BSq(NX), BSq(NY))), BAdd(Tol(42, near), far)))
            [] r.kind = "polygonArea" ->
                 IF ~finite THEN {"not finite"}
                 ELSE Need("not the area inside", Near(46, BMul(BInt(2), V(r, 1, 2)), U(r, Shoelace(p)), BMul(BInt(Len(p)), U(r, ShoelaceSize(p)))))
            [] r.kind = "polygonPerimeter" ->
                 IF ~finite THEN {"not finite"}
                 ELSE Need("record", Len(r.roots) = Len(p) /\ \A i \in 1..Len(p) : RootOk(r.roots[i], SideLength2(p, i)))
                      \cup LET w == BSum(r.roots)
                           IN Need("not the length around", Near(34, BMul(BPow2(40), V(r, 1, 1)), U(r, w), U(r, BMul(BInt(Len(p)), w))))
=============================================================================
