------------------------------- MODULE MC_Geo3 -------------------------------
(* The tests by orientation agree with independent definitions, for every    *)
(* tetrahedron over a small lattice and every lattice point.                 *)
EXTENDS Geo3, TLC, Json
CONSTANTS N, AnyOrder, Emit
VARIABLES v, p
vars == <<v, p>>
Cube == {<<x, y, z>> : x \in 0..N, y \in 0..N, z \in 0..N}
Lex(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ (a[2] < b[2] \/ (a[2] = b[2] /\ a[3] < b[3])))
B(q) == <<BInt(q[1]), BInt(q[2]), BInt(q[3])>>
V == [i \in 1..4 |-> B(v[i])]
Init == /\ v \in {<<<<0, 0, 0>>, b, c, d>> : b \in Cube, c \in Cube, d \in Cube}
        /\ AnyOrder \/ (Lex(v[2], v[3]) /\ Lex(v[3], v[4]))
        /\ Orient3(V[1], V[2], V[3], V[4]) # 0
        /\ p = <<0, 0, 0>>
Next == p = <<0, 0, 0>> /\ p' \in Cube \ {p} /\ UNCHANGED v
P == B(p)
\* half-plane tests = volumes
Agree == InTetra(V, P) <=> InTetraByVolume(V, P)
Strict == StrictlyInTetra(V, P) <=> (InTetra(V, P) /\ \A i \in 1..4 : Vol(IF i = 1 THEN P ELSE V[1], IF i = 2 THEN P ELSE V[2], IF i = 3 THEN P ELSE V[3], IF i = 4 THEN P ELSE V[4]) # BZero)
\* the determinant = distance to the centre against the radius
Sphere == LET k == Center3(V[1], V[2], V[3], V[4])
              d == [i \in 1..3 |-> BSub(BMul(BSub(P[i], V[1][i]), k.den), k.off[i])]
              c == BCmp(BDot(k.off, k.off), BDot(d, d))
          IN InSphere(V[1], V[2], V[3], V[4], P) = c
Corner == \A i \in 1..4 : InSphere(V[1], V[2], V[3], V[4], V[i]) = 0 /\ InTetra(V, V[i])
Output == (Emit /\ (3*v[2][1] + 5*v[2][2] + 7*v[2][3] + 11*v[3][1] + 13*v[3][2] + 17*v[3][3] + 19*v[4][1] + 23*v[4][2] + 29*v[4][3] + 31*p[1] + 37*p[2] + 41*p[3]) % 40 = 7) => PrintT("OUT|" \o ToJson([v |-> v, p |-> p]))
=============================================================================
