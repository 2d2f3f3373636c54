----------------------------- MODULE Trace_Space -----------------------------
(***************************************************************************)
(* Recorded results of the spatial code (B01-B07), judged by Geo3. P, C, Q   *)
(* are points with exact coordinates over one common power of two.           *)
(***************************************************************************)
EXTENDS TraceLoop, Geo3

\* ------------------------------------------------------------------- B01
NT(r) == Len(r.idx) \div 3
FaceAt(r, t) == {r.idx[3*t-2] + 1, r.idx[3*t-1] + 1, r.idx[3*t] + 1}
\* certificate for larger sets: r.tets as tuples; empty spheres, and each face
\* shared with another one or on the convex hull, so that they fill the hull
Third(t, f) == CHOOSE x \in t : x \notin f
CertTetras(r) ==
  LET T == {{t[1], t[2], t[3], t[4]} : t \in {r.tets[i] : i \in 1..Len(r.tets)}}
  IN /\ T # {} /\ Cardinality(T) = Len(r.tets)
     /\ \A t \in T : Cardinality(t) = 4 /\ t \subseteq 1..Len(r.P) /\ EmptySphere(r.P, t, 1..Len(r.P))
     /\ LET Fs == UNION {{<<f, t>> : f \in FacesOf(t)} : t \in T}
            Twice == {f \in {x[1] : x \in Fs} : Cardinality({x \in Fs : x[1] = f}) = 2}
        IN \A x \in Fs : x[1] \in Twice \/
             LET q == AsTuple((x[1] \cup {0}))  d == Third(x[2], x[1])
                 s == Orient3(r.P[q[2]], r.P[q[3]], r.P[q[4]], r.P[d])
             IN \A e \in 1..Len(r.P) : e \in x[1] \/ Orient3(r.P[q[2]], r.P[q[3]], r.P[q[4]], r.P[e]) = s
TetrasOf(r) == IF r.tets = <<>> THEN DelaunayTetras(r.P)
               ELSE {{r.tets[i][1], r.tets[i][2], r.tets[i][3], r.tets[i][4]} : i \in 1..Len(r.tets)}
WhyFaces(r) ==
  IF r.status # "ok" THEN {r.status}
  ELSE IF Len(r.idx) % 3 # 0 THEN {"no whole triangles"}
  ELSE IF ~\A i \in 1..Len(r.idx) : r.idx[i] >= 0 /\ r.idx[i] < Len(r.P) THEN {"an index refers to no point"}
  ELSE IF r.tets # <<>> /\ ~CertTetras(r) THEN {"record"}
  ELSE LET tets == TLCEval(TetrasOf(r))
           all == TLCEval(UNION {FacesOf(t) : t \in tets})
           listed == TLCEval([t \in 1..NT(r) |-> FaceAt(r, t)])
           faces == {listed[t] : t \in 1..NT(r)}
           lo == Lo(r.P)  hi == Hi(r.P)
           low == BVSub(lo, BVSub(hi, lo))  high == [k \in 1..3 |-> BAdd(hi[k], BSub(hi[k], lo[k]))]
       IN Need("a triangle uses a point twice", \A f \in faces : Cardinality(f) = 3)
          \cup Need("a triangle is not listed exactly twice",
                    NT(r) = 2 * Cardinality(faces) /\ \A f \in faces : Cardinality({t \in 1..NT(r) : listed[t] = f}) = 2)
          \cup Need("a triangle is no Delaunay face", Len(r.P) >= 4 => faces \subseteq all)
          \cup Need("a face of a Delaunay tetrahedron is missing",
                    \A t \in tets : FacesOf(t) \subseteq faces \/
                      LET q == AsTuple(t) IN ~SphereWithin(r.P[q[1]], r.P[q[2]], r.P[q[3]], r.P[q[4]], low, high))
          \cup Need("the points were changed", r.same)
\* ------------------------------------------------------------------- B02
WhyEnclosed(r) ==
  IF r.status # "ok" THEN {r.status}
  ELSE Need("four corners", Len(r.C) = 4)
       \cup Need("a tetrahedron without volume", Len(r.C) = 4 => Orient3(r.C[1], r.C[2], r.C[3], r.C[4]) # 0)
       \cup Need("a point is not strictly inside", Len(r.C) = 4 => \A i \in 1..Len(r.P) : StrictlyInTetra(r.C, r.P[i]))
       \cup Need("the points were changed", r.same)
       \cup Need("the points do not follow the corners in order", r.kept)
       \cup Need("the faces are not those of the tetrahedron", r.faced)
WhyExtents(r) ==
  IF r.status # "ok" THEN {r.status}
  ELSE Need("not the smallest coordinates", r.C[1] = Lo(r.P)) \cup Need("not the largest coordinates", r.C[2] = Hi(r.P))
       \cup Need("the points were changed", r.same)
\* ------------------------------------------------------------------- B03
Abs3(v) == <<BAbs(v[1]), BAbs(v[2]), BAbs(v[3])>>
Perm3(u, v, w) == LET M(a, b, c) == BMul(a, BMul(b, c))
  IN BSum(<<M(u[1], v[2], w[3]), M(u[1], v[3], w[2]), M(u[2], v[1], w[3]), M(u[2], v[3], w[1]), M(u[3], v[1], w[2]), M(u[3], v[2], w[1])>>)
\* the sum of the sizes of all terms of the determinant
Terms(p, e) == LET d == [i \in 1..4 |-> BVSub(p[i], e)]  a == [i \in 1..4 |-> Abs3(d[i])]
                   l == [i \in 1..4 |-> BDot(d[i], d[i])]
               IN BSum(<<BMul(l[1], Perm3(a[2], a[3], a[4])), BMul(l[2], Perm3(a[1], a[3], a[4])),
                         BMul(l[3], Perm3(a[1], a[2], a[4])), BMul(l[4], Perm3(a[1], a[2], a[3]))>>)
WhySign(r) ==
  IF r.status # "ok" THEN {r.status}
  ELSE LET p == r.P  o == Orient3(p[1], p[2], p[3], p[4])
           det == SphereDet(p[1], p[2], p[3], p[4], r.Q)
       IN CASE r.kind = "orient" -> Need("wrong sign of the volume", r.r = o)
          [] r.kind = "fast" -> Need("wrong side of the sphere", o # 0 => r.r = -BSgn(det))
          [] r.kind = "bounded" -> Need("wrong side of the sphere", o # 0 => r.r \in {0, -BSgn(det)})
                \cup Need("no answer although far from the sphere",
                          (o # 0 /\ BLess(Terms(p, r.Q), BMul(BPow2(40), BAbs(det)))) => r.r # 0)
\* ------------------------------------------------------------------- B04
WhyInside(r) ==
  IF r.status # "ok" THEN {r.status}
  ELSE IF r.kind = "sameSide"
       THEN Need("wrong side of the plane", r.r = SameSideOf(r.P[1], r.P[2], r.P[3], r.P[4], r.Q))
       ELSE Need("record", Orient3(r.P[1], r.P[2], r.P[3], r.P[4]) # 0)
            \cup Need("inside and outside confused", r.r = InTetraByVolume(r.P, r.Q))
\* ------------------------------------------------------------------- B05
Cross3(u, v) == <<BSub(BMul(u[2], v[3]), BMul(u[3], v[2])), BSub(BMul(u[3], v[1]), BMul(u[1], v[3])), BSub(BMul(u[1], v[2]), BMul(u[2], v[1]))>>
LineDist(a, b, p) == LET c == Cross3(BVSub(b, a), BVSub(p, a)) IN BDot(c, c)
WhySimplex(r) ==
  IF r.status # "ok" THEN {r.status}
  ELSE IF Len(r.C) # 4 THEN {"not four points"}
  ELSE LET c == r.C  In(q) == \E i \in 1..Len(r.P) : r.P[i] = q
           flat == \A i \in 1..Len(r.P) : BAbs(Vol(c[1], c[2], c[3], r.P[i])) = BZero
       IN Need("a corner is no point of the list", \A i \in 1..4 : In(c[i]))
          \cup Need("the first point has not the smallest x", c[1][1] = Least(r.P, 1, 1))
          \cup Need("the second point has not the largest x", c[2][1] = Greatest(r.P, 1, 1))
          \cup Need("the third point is not farthest from the line",
                    \A i \in 1..Len(r.P) : BLeq(LineDist(c[1], c[2], r.P[i]), LineDist(c[1], c[2], c[3])))
          \cup Need("the fourth point is not farthest from the plane",
                    \A i \in 1..Len(r.P) : BLeq(BAbs(Vol(c[1], c[2], c[3], r.P[i])), BAbs(Vol(c[1], c[2], c[3], c[4]))))
          \cup Need("a simplex without volume", Vol(c[1], c[2], c[3], c[4]) # BZero)
          \cup Need("the points were changed", r.same)
WhyDistances(r) ==
  IF r.status # "ok" THEN {r.status}
  \* coordinates and results are in units of 2^-e, the measures have degrees 4 and 3
  ELSE Need("squared distance to the line, times its length squared", BMul(BPow2(3 * r.e), r.C[1]) = LineDist(r.P[1], r.P[2], r.P[3]))
       \cup Need("distance to the plane, times its area", BMul(BPow2(2 * r.e), BAbs(r.C[2])) = BAbs(Vol(r.P[1], r.P[2], r.P[3], r.P[4])))
\* ------------------------------------------------------------------- B06
Canon3(t) == IF t[1] < t[2] /\ t[1] < t[3] THEN t ELSE IF t[2] < t[1] /\ t[2] < t[3] THEN <<t[2], t[3], t[1]>> ELSE <<t[3], t[1], t[2]>>
WhySplit(r) ==
  IF r.status # "ok" THEN {r.status}
  ELSE IF Len(r.idx) % 3 # 0 \/ ~\A i \in 1..Len(r.idx) : r.idx[i] \in 0..4 THEN {"no whole triangles of the five points"}
  ELSE LET tri == [t \in 1..NT(r) |-> Canon3(<<r.idx[3*t-2], r.idx[3*t-1], r.idx[3*t]>>)]
           Times(x) == Cardinality({t \in 1..NT(r) : tri[t] = x})
           Faces == {<<a, b, c>> \in (0..4) \X (0..4) \X (0..4) : a < b /\ a < c /\ b # c}
       IN Need("the vertices are not the four corners and the point", r.kept)
          \cup Need("an original face is not listed once per facing", \A f \in Faces : (f[2] # 4 /\ f[3] # 4) => Times(f) = 1)
          \cup Need("an inner face is not listed twice per facing", \A f \in Faces : (f[2] = 4 \/ f[3] = 4) => Times(f) = 2)
          \cup Need("triangles beyond the four tetrahedra", NT(r) = 32)
WhyReverse(r) ==
  IF r.status # "ok" THEN {r.status}
  ELSE Need("not the list and its reverse", r.idx = r.given \o [i \in 1..Len(r.given) |-> r.given[Len(r.given) + 1 - i]])
\* ------------------------------------------------------------------- B07
Dist2(a, b) == LET d == BVSub(a, b) IN BDot(d, d)
WhyNearest(r) ==
  IF r.status # "ok" THEN {r.status}
  ELSE LET d == Dist2(r.C[1], r.Q)
       IN Need("not a point of the list", \E i \in 1..Len(r.P) : r.P[i] = r.C[1])
          \cup Need("a nearer point exists", \A i \in 1..Len(r.P) :
                      IF r.exact THEN BLeq(d, Dist2(r.P[i], r.Q))
                      ELSE BLeq(BMul(BPow2(49), d), BMul(BAdd(BPow2(49), BInt(1)), Dist2(r.P[i], r.Q))))
          \cup Need("the points were changed", r.same)
\* r.slack: allowed rounding, zero for whole numbers
WhyCentroid(r) ==
  IF r.status # "ok" THEN {r.status}
  ELSE Need("not the mean of the four points", \A k \in 1..3 :
              BLeq(BAbs(BSub(BMul(BInt(4), r.C[1][k]), BSum([i \in 1..4 |-> r.P[i][k]]))), r.slack))
=============================================================================
