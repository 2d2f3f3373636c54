----------------------------- MODULE MC_Delaunay -----------------------------
(***************************************************************************)
(* Sweep-hull insertion with edge flips, over every small set of grid       *)
(* points: from any seed triangle with an empty circle, points are taken    *)
(* by distance from its circumcentre; each is joined to the hull edges it   *)
(* sees; then any edge that is not locally Delaunay may be flipped, in any  *)
(* order, before the next point is taken.                                   *)
(***************************************************************************)
EXTENDS Planar, TLC, Json
CONSTANTS W, H, MinPts, MaxPts, Emit
VARIABLES pts, seed, tris, in, left
vars == <<pts, seed, tris, in, left>>
Pt(x, y) == <<BInt(x), BInt(y)>>
GridSet == {Pt(x, y) : x \in 0..(W-1), y \in 0..(H-1)}
SortedSeq(S) == SetToSortSeq(S, LexLess)

\* circumcentre of t as <<numerators, denominator>>, denominator > 0
Center(t) ==
  LET a == t[1]  b == BVSub(t[2], t[1])  c == BVSub(t[3], t[1])
      d == BMul(BInt(2), BDet(<<b, c>>))
      bl == BDot(b, b)  cl == BDot(c, c)
      ux == BAdd(BMul(a[1], d), BSub(BMul(c[2], bl), BMul(b[2], cl)))
      uy == BAdd(BMul(a[2], d), BSub(BMul(b[1], cl), BMul(c[1], bl)))
      s == BInt(BSgn(d))
  IN <<<<BMul(s, ux), BMul(s, uy)>>, BMul(s, d)>>
DistC(t, p) == LET k == Center(t)  v == BVSub(<<BMul(p[1], k[2]), BMul(p[2], k[2])>>, k[1]) IN BDot(v, v)

Init == /\ pts \in {S \in SUBSET GridSet : Cardinality(S) >= MinPts /\ Cardinality(S) <= MaxPts}
        /\ ~AllCollinear(SortedSeq(pts))
        /\ seed \in {<<a, b, c>> : a \in pts, b \in pts, c \in pts}
        /\ LexLess(seed[1], seed[2]) /\ LexLess(seed[1], seed[3]) /\ Orient(seed[1], seed[2], seed[3]) = 1
        /\ \A p \in pts : InCircle(seed[1], seed[2], seed[3], p) <= 0
        /\ tris = {seed}
        /\ in = {seed[1], seed[2], seed[3]}
        /\ left = pts \ in
Canon(t) == IF LexLess(t[1], t[2]) /\ LexLess(t[1], t[3]) THEN t
            ELSE IF LexLess(t[2], t[1]) /\ LexLess(t[2], t[3]) THEN <<t[2], t[3], t[1]>> ELSE <<t[3], t[1], t[2]>>
Bad(t, u, i, j) == LET n(k) == (k % 3) + 1
                   IN t[i] = u[n(j)] /\ t[n(i)] = u[j] /\ InCircle(t[1], t[2], t[3], u[n(n(j))]) > 0
Legal == \A t, u \in tris : \A i, j \in 1..3 : ~Bad(t, u, i, j)
FlipEdge == \E t, u \in tris : \E i, j \in 1..3 :
  /\ Bad(t, u, i, j)
  /\ LET n(k) == (k % 3) + 1
         p == t[n(n(i))]  q == u[n(n(j))]
     IN tris' = (tris \ {t, u}) \cup {Canon(<<p, t[i], q>>), Canon(<<p, q, t[n(i)]>>)}
  /\ UNCHANGED <<pts, seed, in, left>>
Visible(p) == {e \in Boundary(tris) : Orient(e[1], e[2], p) < 0}
Insert == /\ left # {} /\ Legal
          /\ \E p \in left :
               /\ \A q \in left : BLeq(DistC(seed, p), DistC(seed, q))
               /\ tris' = tris \cup {Canon(<<e[2], e[1], p>>) : e \in Visible(p)}
               /\ in' = in \cup {p} /\ left' = left \ {p}
          /\ UNCHANGED <<pts, seed>>
Next == FlipEdge \/ Insert
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Hull == Chain(SortedSeq(in))
TilesHull == Tiles(tris, 1, Hull) /\ UNION {{t[1], t[2], t[3]} : t \in tris} = in
\* the sweep never meets a point that sees no edge
Sees == (left # {} /\ Legal) => \A p \in left : (\A q \in left : BLeq(DistC(seed, p), DistC(seed, q))) => Visible(p) # {}
Delaunay == (left = {} /\ Legal) => EmptyCircles(tris, pts)
LocalIsGlobal == (Legal <=> LocallyDelaunay(tris)) /\ (Legal => EmptyCircles(tris, in))
Ends == <>(left = {} /\ Legal)
Output == (Emit /\ left = {} /\ Legal) => PrintT("OUT|" \o ToJson([p |-> [i \in 1..Cardinality(pts) |-> LET q == SortedSeq(pts)[i] IN <<CHOOSE x \in 0..W : BInt(x) = q[1], CHOOSE y \in 0..H : BInt(y) = q[2]>>]]))
=============================================================================
