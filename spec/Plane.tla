------------------------------- MODULE Plane -------------------------------
(* Lines, planes and normals over exact integers. *)
EXTENDS Vec, Sequences
Slope(n, d) == BDot(n, d)
Rise(n, p, o) == BSub(BDot(n, o), BDot(n, p))
Cross3(u, v) == <<BSub(BMul(u[2], v[3]), BMul(u[3], v[2])), BSub(BMul(u[3], v[1]), BMul(u[1], v[3])), BSub(BMul(u[1], v[2]), BMul(u[2], v[1]))>>
Spread(n, d) == BSum([x \in 1..3 |-> BAbs(BMul(n[x], d[x]))])
\* r / den is the common point of line p + t d and the plane through o with
\* normal n, up to rounding of the terms it is computed from
MeetFits(p, d, o, n, r, den) ==
  LET s == Slope(n, d)  h == Rise(n, p, o)
  IN \A x \in 1..3 :
       LET want == BAdd(BMul(p[x], s), BMul(d[x], h))                      \* over s
           off == BAbs(BSub(BMul(r[x], s), BMul(want, den)))               \* over s den
           size == BMul(BAdd(BAbs(BMul(p[x], s)), BAbs(BMul(d[x], BSum(<<BAbs(h)>>)))), BAbs(den))
       IN BLeq(BMul(BPow2(45), BMul(off, BAbs(s))), BMul(size, Spread(n, d)))
\* dist / one is the signed distance of q from the plane through o with unit
\* normal n / one, all coordinates counting 1 / one
DistFits(n, o, q, dist, one) ==
  LET w == BVSub(q, o)
      size == BAdd(BSum([x \in 1..3 |-> BAbs(BMul(n[x], q[x]))]), BSum([x \in 1..3 |-> BAbs(BMul(n[x], o[x]))]))
  IN BLeq(BMul(BPow2(48), BAbs(BSub(BMul(dist, one), BDot(n, w)))), size)
NormalFits(a, b, c, r) ==
  LET w == Cross3(BVSub(b, a), BVSub(c, a))
      x == Cross3(w, r)
  IN IF w = Zero3 THEN r = Zero3
     ELSE BSgn(BDot(w, r)) > 0 /\ BLeq(BMul(BPow2(80), BDot(x, x)), BMul(BDot(w, w), BDot(r, r)))
=============================================================================
