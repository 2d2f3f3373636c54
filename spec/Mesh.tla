-------------------------------- MODULE Mesh --------------------------------
(***************************************************************************)
(* Triangle meshes as lists of indices.  A mesh record m has                *)
(*   idx : sequence of vertex indices, three per triangle (from 0)          *)
(*   loc : loc[i+1] is the location of vertex i (coincident vertices share) *)
(* What it means for such a mesh to be a closed surface, and a fan.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

NTri(m)     == Len(m.idx) \div 3
Corner(m, t, k) == m.idx[3*(t-1) + k]                     \* k = 1, 2, 3
Tri(m, t)   == <<Corner(m, t, 1), Corner(m, t, 2), Corner(m, t, 3)>>
LocTri(m, t) == <<m.loc[Corner(m, t, 1) + 1], m.loc[Corner(m, t, 2) + 1], m.loc[Corner(m, t, 3) + 1]>>
Proper(t)   == t[1] # t[2] /\ t[2] # t[3] /\ t[3] # t[1]
\* the same triangle seen from the same side, written in one way
Canon(t)    == IF t[1] <= t[2] /\ t[1] <= t[3] THEN t
               ELSE IF t[2] <= t[1] /\ t[2] <= t[3] THEN <<t[2], t[3], t[1]>>
               ELSE <<t[3], t[1], t[2]>>
Flip(t)     == <<t[1], t[3], t[2]>>

WholeTriangles(m) == Len(m.idx) % 3 = 0
InRange(m)        == \A i \in 1..Len(m.idx) : m.idx[i] >= 0 /\ m.idx[i] < m.nv
EachOnce(m)       == Cardinality({Canon(Tri(m, t)) : t \in 1..NTri(m)}) = NTri(m)
AllProper(m)      == \A t \in 1..NTri(m) : Proper(Tri(m, t))
LocsUsed(m)       == {m.loc[m.idx[i] + 1] : i \in 1..Len(m.idx)}
Locs(m)           == {m.loc[i] : i \in 1..Len(m.loc)}

\* triangles that remain when coincident vertices are identified
Kept(m)     == {t \in 1..NTri(m) : Proper(LocTri(m, t))}
Edges(m, kept) == {LET l == LocTri(m, t) IN <<l[k], l[(k % 3) + 1]>> : t \in kept, k \in 1..3}
\* every directed edge by exactly one triangle, its reverse by one other
EdgesOnce(m, kept, edges) == Cardinality(edges) = 3 * Cardinality(kept)
Closed(edges)  == \A e \in edges : <<e[2], e[1]>> \in edges
Euler(m, kept, edges) == Cardinality({e[1] : e \in edges}) - Cardinality(edges) \div 2 + Cardinality(kept)
RECURSIVE Reach(_, _)
Reach(edges, seen) == LET more == seen \cup {e[2] : e \in {x \in edges : x[1] \in seen}}
                      IN IF more = seen THEN seen ELSE Reach(edges, more)
OnePiece(edges) == edges # {} /\ Reach(edges, {(CHOOSE e \in edges : TRUE)[1]}) = {e[1] : e \in edges}
\* The same by certificates, linear in the size of the mesh. Directed edge h
\* is side k of triangle t for h = 3*(t-1)+k. order: all directed edges of
\* kept triangles, strictly increasing; twin[h]: the reverse edge of h;
\* up[l+1] = <<an edge from l towards the root, distance to the root>>
From(m, h) == m.loc[m.idx[h] + 1]
To(m, h)   == m.loc[m.idx[IF h % 3 = 0 THEN h - 2 ELSE h + 1] + 1]
Before(m, g, h) == LET a == From(m, g)  b == From(m, h)
                   IN a < b \/ (a = b /\ To(m, g) < To(m, h))
CertEdgesOnce(m, kept) ==
  /\ Len(m.order) = 3 * Cardinality(kept)
  /\ \A i \in 1..Len(m.order) : LET h == m.order[i]
       IN /\ h \in 1..Len(m.idx) /\ ((h + 2) \div 3) \in kept
          /\ i > 1 => Before(m, m.order[i-1], h)
CertClosed(m) == \A i \in 1..Len(m.order) :
  LET h == m.order[i]  g == m.twin[h]
  IN g > 0 /\ m.twin[g] = h /\ From(m, g) = To(m, h) /\ To(m, g) = From(m, h)
Starts(m) == {i \in 1..Len(m.order) : i = 1 \/ From(m, m.order[i-1]) # From(m, m.order[i])}
CertEuler(m, kept) == Cardinality(Starts(m)) - Len(m.order) \div 2 + Cardinality(kept)
CertOnePiece(m) ==
  LET st == Starts(m)
      Up(i) == m.up[From(m, m.order[i]) + 1]
  IN /\ Cardinality({i \in st : Up(i)[2] = 0}) = 1
     /\ \A i \in st : LET l == From(m, m.order[i])  u == Up(i)
                    IN u[2] = 0 \/ /\ u[2] > 0 /\ From(m, u[1]) = l
                                   /\ m.up[To(m, u[1]) + 1][2] = u[2] - 1
\* ------------------------------------------------------------------- fans
\* all triangles of a disc with centre 0 and rim 1..n, each seen from both sides
FanTris(n) == LET nx(i) == IF i = n THEN 1 ELSE i + 1
              IN {<<0, i, nx(i)>> : i \in 1..n} \cup {<<0, nx(i), i>> : i \in 1..n}
\* the same as a test, linear in the size of the mesh
InFan(t, n) == LET nx(i) == IF i = n THEN 1 ELSE i + 1
                   c == Canon(t)
               IN c[1] = 0 /\ c[2] \in 1..n /\ c[3] \in 1..n /\ (c[3] = nx(c[2]) \/ c[2] = nx(c[3]))
=============================================================================
