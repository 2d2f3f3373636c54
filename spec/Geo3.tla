-------------------------------- MODULE Geo3 --------------------------------
(***************************************************************************)
(* Points of space with exact BigNum coordinates: orientation, spheres,     *)
(* tetrahedra, Delaunay tetrahedra and faces.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, BigNum

\* six times the signed volume; negative when a, b, c appear counterclockwise seen from d
Vol(a, b, c, d) == BDet(<<BVSub(a, d), BVSub(b, d), BVSub(c, d)>>)
Orient3(a, b, c, d) == BSgn(Vol(a, b, c, d))
SphereDet(a, b, c, d, e) ==
  LET Row(q) == LET v == BVSub(q, e) IN <<v[1], v[2], v[3], BDot(v, v)>>
  IN BDet(<<Row(a), Row(b), Row(c), Row(d)>>)
\* 1: e inside of the sphere through a, b, c, d; 0: on it; -1 outside (any orientation)
InSphere(a, b, c, d, e) == BSgn(SphereDet(a, b, c, d, e)) * Orient3(a, b, c, d)

\* p not strictly on the other side than v4 of the plane v1 v2 v3
SameSideOf(v1, v2, v3, v4, p) == Orient3(v1, v2, v3, v4) * Orient3(v1, v2, v3, p) >= 0
InTetra(v, p) == /\ SameSideOf(v[1], v[2], v[3], v[4], p)
                 /\ SameSideOf(v[2], v[3], v[4], v[1], p)
                 /\ SameSideOf(v[3], v[4], v[1], v[2], p)
                 /\ SameSideOf(v[4], v[1], v[2], v[3], p)
StrictlyInTetra(v, p) ==
  LET s == Orient3(v[1], v[2], v[3], v[4])
  IN /\ s # 0
     /\ Orient3(p, v[2], v[3], v[4]) = s /\ Orient3(v[1], p, v[3], v[4]) = s
     /\ Orient3(v[1], v[2], p, v[4]) = s /\ Orient3(v[1], v[2], v[3], p) = s
\* the same by volumes: the four parts make up the whole
InTetraByVolume(v, p) ==
  BSum(<<BAbs(Vol(p, v[2], v[3], v[4])), BAbs(Vol(v[1], p, v[3], v[4])), BAbs(Vol(v[1], v[2], p, v[4])), BAbs(Vol(v[1], v[2], v[3], p))>>)
    = BAbs(Vol(v[1], v[2], v[3], v[4]))

\* circumcentre as <<numerators, denominator>>, and squared radius numerator (over den^2)
Center3(a, b, c, d) ==
  LET u == BVSub(b, a)  v == BVSub(c, a)  w == BVSub(d, a)
      Col(k) == <<BDot(u, u), BDot(v, v), BDot(w, w)>>
      M(k) == BDet([i \in 1..3 |-> LET x == CASE i = 1 -> u [] i = 2 -> v [] i = 3 -> w
                                    IN [j \in 1..3 |-> IF j = k THEN BDot(x, x) ELSE x[j]]])
      den == BMul(BInt(2), BDet(<<u, v, w>>))
      s == BInt(BSgn(den))
  IN [off |-> [k \in 1..3 |-> BMul(s, M(k))], den |-> BMul(s, den)]      \* centre = a + off / den
\* the sphere stays within the box lo..hi
SphereWithin(a, b, c, d, lo, hi) ==
  LET k == Center3(a, b, c, d)  r2 == BDot(k.off, k.off)
  IN \A i \in 1..3 : LET x == BAdd(BMul(a[i], k.den), k.off[i])
                         dl == BSub(x, BMul(lo[i], k.den))  dh == BSub(BMul(hi[i], k.den), x)
                     IN /\ BSgn(dl) > 0 /\ BSgn(dh) > 0
                        /\ BLeq(r2, BSq(dl)) /\ BLeq(r2, BSq(dh))
\* smallest and largest coordinate, along axis k, of a non-empty sequence
RECURSIVE Least(_, _, _)
Least(ps, k, i) == IF i = Len(ps) THEN ps[i][k] ELSE LET m == Least(ps, k, i + 1) IN IF BLess(ps[i][k], m) THEN ps[i][k] ELSE m
RECURSIVE Greatest(_, _, _)
Greatest(ps, k, i) == IF i = Len(ps) THEN ps[i][k] ELSE LET m == Greatest(ps, k, i + 1) IN IF BLess(m, ps[i][k]) THEN ps[i][k] ELSE m
Lo(ps) == <<Least(ps, 1, 1), Least(ps, 2, 1), Least(ps, 3, 1)>>
Hi(ps) == <<Greatest(ps, 1, 1), Greatest(ps, 2, 1), Greatest(ps, 3, 1)>>

\* ---------------------------------------------------------------- Delaunay
\* ps: sequence of points in general position; tetrahedra as sets of places in ps
AsTuple(t) == LET a == CHOOSE x \in t : \A y \in t : x <= y
                  b == CHOOSE x \in t \ {a} : \A y \in t \ {a} : x <= y
                  c == CHOOSE x \in t \ {a, b} : \A y \in t \ {a, b} : x <= y
              IN <<a, b, c, CHOOSE x \in t \ {a, b, c} : TRUE>>
EmptySphere(ps, t, others) == LET q == AsTuple(t)
  IN \A e \in others \ t : InSphere(ps[q[1]], ps[q[2]], ps[q[3]], ps[q[4]], ps[e]) < 0
FacesOf(t) == {t \ {x} : x \in t}
Fours(n) == UNION {UNION {UNION {{{i, j, k, l} : l \in (k+1)..n} : k \in (j+1)..n} : j \in (i+1)..n} : i \in 1..n}
DelaunayTetras(ps) == {t \in Fours(Len(ps)) : EmptySphere(ps, t, 1..Len(ps))}
GeneralPosition(ps) ==
  /\ \A t \in Fours(Len(ps)) : LET q == AsTuple(t) IN
       /\ Orient3(ps[q[1]], ps[q[2]], ps[q[3]], ps[q[4]]) # 0
       /\ \A e \in 1..Len(ps) : e \notin t => InSphere(ps[q[1]], ps[q[2]], ps[q[3]], ps[q[4]], ps[e]) # 0
=============================================================================
