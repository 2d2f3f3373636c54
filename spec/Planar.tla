------------------------------- MODULE Planar -------------------------------
(***************************************************************************)
(* Points of the plane <<x, y>> (exact BigNum coordinates), their convex    *)
(* hull, and what a Delaunay triangulation of them is.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, BigNum

Orient(a, b, c) == BSgn(BDet(<<BVSub(b, a), BVSub(c, a)>>))
\* sign > 0: p strictly inside of the circle through a, b, c (any orientation)
InCircle(a, b, c, p) ==
  LET Row(q) == LET d == BVSub(q, p) IN <<d[1], d[2], BDot(d, d)>>
  IN BSgn(BDet(<<Row(a), Row(b), Row(c)>>)) * Orient(a, b, c)
LexLess(a, b) == LET c == BCmp(a[1], b[1]) IN c < 0 \/ (c = 0 /\ BCmp(a[2], b[2]) < 0)
AllCollinear(ps) ==      \* a sequence of distinct points
  Len(ps) < 3 \/ \A i \in 3..Len(ps) : Orient(ps[1], ps[2], ps[i]) = 0
Within(a, b, p) ==       \* p on the segment ab
  /\ Orient(a, b, p) = 0
  /\ \A k \in {1, 2} : \/ BLeq(a[k], p[k]) /\ BLeq(p[k], b[k])
                       \/ BLeq(b[k], p[k]) /\ BLeq(p[k], a[k])

\* ----------------------------------------------------- hull: what it means
\* h: cyclic sequence of points, counter-clockwise, straight points kept
Nx(h, i) == IF i = Len(h) THEN 1 ELSE i + 1
HullMeans(h, ps) ==      \* ps distinct, not all collinear
  /\ Len(h) >= 3
  /\ \A i \in 1..Len(h) : \E j \in 1..Len(ps) : ps[j] = h[i]
  /\ Cardinality({h[i] : i \in 1..Len(h)}) = Len(h)
  /\ \A i \in 1..Len(h) : \A j \in 1..Len(ps) : Orient(h[i], h[Nx(h, i)], ps[j]) >= 0
  /\ \A j \in 1..Len(ps) :
       (\E i \in 1..Len(h) : Within(h[i], h[Nx(h, i)], ps[j])) => \E i \in 1..Len(h) : h[i] = ps[j]
\* ------------------------------------------- hull: monotone chain machine
\* taking points in increasing order; Turn is the sign of turns to drop
RECURSIVE Popped(_, _, _)
Popped(st, p, turn) ==
  IF Len(st) > 1 /\ Orient(st[Len(st)-1], st[Len(st)], p) = turn
  THEN Popped(SubSeq(st, 1, Len(st)-1), p, turn) ELSE st
Push(st, p, turn) == Append(Popped(st, p, turn), p)
Lower(sorted) == FoldLeft(LAMBDA st, p : Push(st, p, -1), <<>>, sorted)
Upper(sorted) == FoldLeft(LAMBDA st, p : Push(st, p, 1), <<>>, sorted)
Chain(sorted) ==
  LET L == Lower(sorted)  U == Reverse(Upper(sorted))
  IN IF Len(sorted) < 2 THEN <<>> ELSE SubSeq(L, 1, Len(L)-1) \o SubSeq(U, 1, Len(U)-1)
\* equal up to where the cycle starts
SameCycle(g, h) == Len(g) = Len(h) /\
  (g = <<>> \/ \E k \in 0..(Len(h)-1) : h[k+1] = g[1] /\ \A i \in 1..Len(g) : g[i] = h[((i - 1 + k) % Len(h)) + 1])
Area2(h) == BSum([i \in 1..Len(h) |-> BDet(<<h[i], h[Nx(h, i)]>>)])

\* --------------------------------------------------------- triangulations
\* tris: a set of triples of points, as triangles
Turned(tris, s) == \A t \in tris : Orient(t[1], t[2], t[3]) = s
EdgesOf(tris) == UNION {{<<t[1], t[2]>>, <<t[2], t[3]>>, <<t[3], t[1]>>} : t \in tris}
Boundary(tris) == LET es == EdgesOf(tris) IN {e \in es : <<e[2], e[1]>> \notin es}
CycleEdges(h, s) == {IF s > 0 THEN <<h[i], h[Nx(h, i)]>> ELSE <<h[Nx(h, i)], h[i]>> : i \in 1..Len(h)}
Tiles(tris, s, hull) ==
  /\ Turned(tris, s)
  /\ Cardinality(EdgesOf(tris)) = 3 * Cardinality(tris)     \* each side of an edge once
  /\ Boundary(tris) = CycleEdges(hull, s)
EmptyCircles(tris, pts) == \A t \in tris : \A p \in pts : InCircle(t[1], t[2], t[3], p) <= 0
LocallyDelaunay(tris) ==
  \A t, u \in tris : \A i, j \in 1..3 :
    LET n(k) == (k % 3) + 1
    IN (t[i] = u[n(j)] /\ t[n(i)] = u[j]) => InCircle(t[1], t[2], t[3], u[n(n(j))]) <= 0
=============================================================================
