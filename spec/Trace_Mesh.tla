----------------------------- MODULE Trace_Mesh -----------------------------
(* Recorded tessellations against Mesh (M01, M03, M04) and against exact     *)
(* statements about the scaled coordinates (M02, M05).                       *)
(* Coordinates are relative to the requested centre, in units of the radius  *)
(* (tube radius, semi axes), times S, rounded to whole numbers.              *)
EXTENDS TraceLoop, Mesh, BigNum

S  == BPow2(40)
S2 == BPow2(80)
Near(a, b, k)  == BLeq(BAbs(BSub(a, b)), BPow2(k))
Dot(p, q)      == BDot(p, q)
XY(p)          == <<p[1], p[2]>>
Cross(p, q)    == BSub(BMul(p[1], q[2]), BMul(p[2], q[1]))
Dist2(p, q)    == LET d == BVSub(p, q) IN BDot(d, d)
UpCrossings(z) == Cardinality({j \in 1..Len(z) :   \* cyclic sequence of signs
                    z[j] < 0 /\ z[IF j = Len(z) THEN 1 ELSE j + 1] >= 0})

\* ------------------------------------------------------------------- M01
WhyIndex(r) ==
  IF r.status # "ok" THEN {r.status}
  ELSE Need("whole triangles", WholeTriangles(r) /\ r.idx # <<>>)
       \cup (IF ~(WholeTriangles(r) /\ InRange(r)) THEN {"an index refers to no vertex"}
             ELSE Need("a triangle uses a vertex twice", AllProper(r))
                  \cup Need("a triangle is listed twice", EachOnce(r))
                  \cup Need("a vertex location is not used", LocsUsed(r) = Locs(r)))
\* ------------------------------------------------------------------- M03
Volume6(m, kept) == \* six times the volume enclosed, for the sign
  LET V(t) == BDet(<<m.P[Corner(m,t,1)+1], m.P[Corner(m,t,2)+1], m.P[Corner(m,t,3)+1]>>)
  IN BSum([t \in 1..NTri(m) |-> IF t \in kept THEN V(t) ELSE BZero])
WhySurface(r) ==
  IF r.status # "ok" THEN {r.status}
  ELSE IF ~(WholeTriangles(r) /\ InRange(r) /\ r.idx # <<>>) THEN {"an index refers to no vertex"}
  ELSE LET kept == TLCEval(Kept(r))
           once == CertEdgesOnce(r, kept)
           closed == once /\ CertClosed(r)
           agree == NTri(r) > 200 \/      \* small enough to compare with the definitions
                      LET edges == TLCEval(Edges(r, kept))
                      IN /\ once = EdgesOnce(r, kept, edges)
                         /\ once => closed = Closed(edges)
                         /\ once => CertEuler(r, kept) = Euler(r, kept, edges)
                         /\ closed => CertOnePiece(r) = OnePiece(edges)
       IN Need("certificate disagrees with definition", agree)
          \cup Need("a directed edge is used twice", once)
          \cup Need("the surface has a hole", once => closed)
          \cup Need("Euler characteristic", once => CertEuler(r, kept) = (IF r.kind = "sphere" THEN 2 ELSE 0))
          \cup Need("more than one piece", once => CertOnePiece(r))
          \cup Need("facing inward", BSgn(Volume6(r, kept)) = 1)
          \cup Need("a triangle of the sphere faces inward",
                    r.kind = "sphere" => \A t \in kept : BSgn(BDet(<<r.P[Corner(r,t,1)+1], r.P[Corner(r,t,2)+1], r.P[Corner(r,t,3)+1]>>)) = 1)
\* ------------------------------------------------------------------- M04
WhyFan(r) ==
  IF r.status # "ok" THEN {r.status}
  ELSE IF ~(WholeTriangles(r) /\ InRange(r) /\ r.nv > 3) THEN {"an index refers to no vertex"}
  ELSE LET n == r.nv - 1
           tris == TLCEval({Canon(Tri(r, t)) : t \in 1..NTri(r)})
           fans == Cardinality(tris) = 2*n /\ \A t \in 1..NTri(r) : InFan(Tri(r, t), n)
           Up(t) == BSgn(BDet(<<XY(BVSub(r.P[t[2]+1], r.P[t[1]+1])), XY(BVSub(r.P[t[3]+1], r.P[t[1]+1]))>>))
       IN Need("number of triangles", NTri(r) = 2*n)
          \cup Need("the fans of both sides", fans)
          \cup Need("test disagrees with definition", n > 100 \/ fans = (tris = {Canon(t) : t \in FanTris(n)}))
          \cup Need("half of the triangles face up, half down",
                    /\ Cardinality({t \in tris : Up(t) = 1}) = n
                    /\ Cardinality({t \in tris : Up(t) = -1}) = n)
          \cup Need("one location per vertex", Cardinality(Locs(r)) = r.nv)
\* ------------------------------------------------------------------- M02
\* points of the unit circle, evenly spaced, once around (cyclic sequence)
EvenRing(q, tol) ==
  LET k == Len(q)
      nx(j) == IF j = k THEN 1 ELSE j + 1
      d == Dot(q[1], q[2])  c == Cross(q[1], q[2])
  IN /\ \A j \in 1..k : /\ Near(Dot(q[j], q[nx(j)]), d, tol)
                        /\ Near(Cross(q[j], q[nx(j)]), c, tol)
     /\ \/ UpCrossings([j \in 1..k |-> BSgn(q[j][2])]) = 1
        \/ Near(Dot(q[1], q[1]), BZero, tol - 10)      \* on the axis: no ring at all
WhyRim(r) ==
  IF r.status # "ok" THEN {r.status}
  ELSE IF r.nv < 4 THEN {"fewer than three rim points"}
  ELSE LET q == TLCEval([j \in 1..(r.nv - 1) |-> XY(r.P[j+1])])
       IN Need("number of rim points", r.n > 0 => r.nv = r.n + 1)
          \cup Need("the first vertex is not the centre", \A k \in 1..3 : Near(r.P[1][k], BZero, 12))
          \cup Need("a rim point is out of the plane", \A j \in 2..r.nv : Near(r.P[j][3], BZero, 12))
          \cup Need("a rim point is off the curve", \A j \in 1..Len(q) : Near(Dot(q[j], q[j]), S2, 54))
          \cup Need("rim points are not even or not once around", EvenRing(q, 54))
\* the grid of a sphere or torus: m+1 rings of n+1 points
At(r, i, j) == r.P[i*(r.n+1) + j + 1]
GridOk(r) == r.n >= 3 /\ r.m >= 2 /\ r.nv = (r.n+1)*(r.m+1)
Ring(r, i) == TLCEval([j \in 1..r.n |-> XY(At(r, i, j-1))])
RingClosed(r, i, tol) ==
  /\ \A k \in 1..3 : Near(At(r, i, 0)[k], At(r, i, r.n)[k], tol)
  /\ \A j \in 1..r.n : Near(At(r, i, j)[3], At(r, i, 0)[3], tol)
WhySphere(r) ==
  LET north == At(r, 0, 0)[3]
      d == Dist2(At(r, 0, 0), At(r, 1, 0))
  IN Need("a vertex is off the sphere", \A v \in 1..r.nv : Near(Dot(r.P[v], r.P[v]), S2, 54))
     \cup Need("a ring is not level or not closed", \A i \in 0..r.m : RingClosed(r, i, 14))
     \cup Need("a ring is not even or not once around", \A i \in 1..(r.m-1) : EvenRing(Ring(r, i), 54))
     \cup Need("not pole to pole", /\ Near(BAbs(At(r, 0, 0)[3]), S, 14)
                                   /\ Near(At(r, r.m, 0)[3], BNeg(north), 14))
     \cup Need("rings are not even from pole to pole",
               \A i \in 0..(r.m-1) : /\ Near(Dist2(At(r, i, 0), At(r, i+1, 0)), d, 54)
                                     /\ BSgn(BSub(At(r, i, 0)[3], At(r, i+1, 0)[3])) = BSgn(north))
WhyTorus(r) ==
  LET R2 == BSq(r.R)                       \* ring radius in tube radii, times S
      k == r.rk                            \* 2^k > ring radius / tube radius + 1
      On(p) == LET K == BSub(BAdd(Dot(p, p), R2), S2)
               IN Near(BSq(K), BMul(BPow2(2), BMul(R2, Dot(XY(p), XY(p)))), 160 - 26 + 2*k)
      nx(i) == (i + 1) % r.m
      d1 == Dist2(At(r, 0, 0), At(r, 1, 0))
      d2 == Dist2(At(r, 0, 0), At(r, 2, 0))
  IN Need("a vertex is off the torus", \A v \in 1..r.nv : On(r.P[v]))
     \cup Need("a ring is not level or not closed", \A i \in 0..r.m : RingClosed(r, i, 14 + k))
     \cup Need("a ring is not even or not once around", \A i \in 0..r.m : EvenRing(Ring(r, i), 54 + 2*k))
     \cup Need("the last ring is not the first", \A j \in 0..r.n : \A c \in 1..3 : Near(At(r, 0, j)[c], At(r, r.m, j)[c], 14 + k))
     \cup Need("rings are not even around the tube",
               \A i \in 0..(r.m-1) : /\ Near(Dist2(At(r, i, 0), At(r, nx(i), 0)), d1, 55 + k)
                                     /\ Near(Dist2(At(r, i, 0), At(r, nx(nx(i)), 0)), d2, 55 + k))
     \cup Need("rings do not go once around the tube", UpCrossings([i \in 1..r.m |-> BSgn(At(r, i-1, 0)[3])]) = 1)
WhyPlace(r) ==
  IF r.kind \in {"circle", "ellipse"} THEN WhyRim(r)
  ELSE IF r.status # "ok" THEN {r.status}
  ELSE IF ~GridOk(r) THEN {"number of vertices"}
  ELSE IF r.kind = "sphere" THEN WhySphere(r) ELSE WhyTorus(r)
\* ------------------------------------------------------------------- M05
WhyNormal(r) ==
  IF r.status # "ok" THEN {r.status}
  ELSE IF ~GridOk(r) THEN {"number of vertices"}
  ELSE IF Len(r.normals) # r.nv THEN {"one normal per vertex"}
  ELSE IF Len(r.tex) # r.nv THEN {"one texture coordinate per vertex"}
  ELSE LET Outward(v) ==
             LET p == r.P[v]  q == r.normals[v]
             IN IF r.kind = "sphere" THEN \A c \in 1..3 : Near(p[c], q[c], 14)
                ELSE LET side == BSgn(BSub(Dot(XY(p), XY(p)), BSq(r.R)))   \* outside of the ring circle?
                         along == Dot(XY(p), XY(q))
                     IN /\ Near(p[3], q[3], 14 + r.rk)
                        /\ Near(Cross(p, q), BZero, 54 + r.rk)
                        /\ \/ BSgn(along) = side
                           \/ Near(along, BZero, 54 + 2*r.rk)
           Tex(i, j) == r.tex[i*(r.n+1) + j + 1]
       IN Need("a normal is not of unit length", \A v \in 1..r.nv : Near(Dot(r.normals[v], r.normals[v]), S2, 54))
          \cup Need("a normal does not point outward", \A v \in 1..r.nv : Outward(v))
          \cup Need("texture coordinates are not even around a ring",
                    \A i \in 0..r.m : \A j \in 0..r.n : Near(BMul(Tex(i, j)[1], BInt(r.n)), BMul(S, BInt(j)), 22))
          \cup Need("texture coordinates are not even across the rings",
                    \A i \in 0..r.m : \A j \in 0..r.n : Near(BMul(Tex(i, j)[2], BInt(r.m)), BMul(S, BInt(i)), 22))
=============================================================================
