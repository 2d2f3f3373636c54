----------------------------- MODULE MC_Simplex -----------------------------
(* Choosing extreme points one after another never ends in a flat simplex    *)
(* unless the points are coplanar or have no extent along x.                 *)
EXTENDS Geo3, TLC, Json
CONSTANTS NX, NY, NZ, MinPts, MaxPts, Emit
VARIABLES set, v
vars == <<set, v>>
Cube == {<<x, y, z>> : x \in 0..NX, y \in 0..NY, z \in 0..NZ}
B(q) == <<BInt(q[1]), BInt(q[2]), BInt(q[3])>>
Cross3(u, w) == <<BSub(BMul(u[2], w[3]), BMul(u[3], w[2])), BSub(BMul(u[3], w[1]), BMul(u[1], w[3])), BSub(BMul(u[1], w[2]), BMul(u[2], w[1]))>>
LineDist(a, b, p) == LET c == Cross3(BVSub(b, a), BVSub(p, a)) IN BDot(c, c)
P == {B(q) : q \in set}
Max(f(_), p) == \A q \in P : BLeq(f(q), f(p))
Coplanar == \A a, b, c, d \in P : Orient3(a, b, c, d) = 0
Init == /\ set \in {S \in SUBSET Cube : Cardinality(S) >= MinPts /\ Cardinality(S) <= MaxPts} /\ v = <<>>
        /\ \E a, b \in set : a[1] # b[1]
Pick(p) == CASE Len(v) = 0 -> \A q \in P : BLeq(p[1], q[1])
             [] Len(v) = 1 -> \A q \in P : BLeq(q[1], p[1])
             [] Len(v) = 2 -> LET F(q) == LineDist(v[1], v[2], q) IN Max(F, p)
             [] Len(v) = 3 -> LET F(q) == BAbs(Vol(v[1], v[2], v[3], q)) IN Max(F, p)
             [] OTHER -> FALSE
Next == \E p \in P : Pick(p) /\ v' = Append(v, p) /\ UNCHANGED set
Done == Len(v) = 4
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Solid == Done => ((Vol(v[1], v[2], v[3], v[4]) = BZero) <=> Coplanar)
Apart == Len(v) >= 2 => v[1] # v[2]
Bent == (Len(v) >= 3 /\ ~Coplanar) => LineDist(v[1], v[2], v[3]) # BZero
RECURSIVE Sq(_)
Sq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o Sq(S \ {x})
Output == (Emit /\ v = <<>>) => PrintT("OUT|" \o ToJson([p |-> Sq(set), flat |-> Coplanar]))
=============================================================================
