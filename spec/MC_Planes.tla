------------------------------ MODULE MC_Planes ------------------------------
(***************************************************************************)
(* Lines and planes over small whole numbers: where the slope n.d is zero the *)
(* line meets the plane nowhere or everywhere; otherwise the point given by    *)
(* the formula is the only point on both, and does not depend on the lengths  *)
(* of n and d.  Lengths: the clauses for normalised vectors admit the true     *)
(* one and no other with the same denominator.                                *)
(***************************************************************************)
EXTENDS Plane, Integers, Sequences, Json
CONSTANTS N, Emit
VARIABLES p, d, o, n
vars == <<p, d, o, n>>
B3(v) == <<BInt(v[1]), BInt(v[2]), BInt(v[3])>>
R == (-N)..N
Dirs == {v \in R \X R \X R : v # <<0, 0, 0>>}
Few == { <<0, 0, 0>>, <<1, -2, 3>>, <<-3, 1, 1>> }
Init == p \in Few /\ o \in Few /\ d \in Dirs /\ n \in Dirs
Next == UNCHANGED vars
P == B3(p)  D == B3(d)  O == B3(o)  NN == B3(n)
At(t) == <<p[1] + t * d[1], p[2] + t * d[2], p[3] + t * d[3]>>
On(x) == n[1] * (x[1] - o[1]) + n[2] * (x[2] - o[2]) + n[3] * (x[3] - o[3])
Parallel == (Slope(NN, D) = BZero) = (On(At(0)) = On(At(1)))
NowhereOrAll == Slope(NN, D) = BZero => (On(At(0)) = 0) = (On(At(2)) = 0)
\* numerators over the slope
Hit == [x \in 1..3 |-> BAdd(BMul(P[x], Slope(NN, D)), BMul(D[x], Rise(NN, P, O)))]
OnPlane == Slope(NN, D) # BZero => BDot(NN, Hit) = BMul(Slope(NN, D), BDot(NN, O))
OnLine == Slope(NN, D) # BZero => LET v == BVSub(Hit, [x \in 1..3 |-> BMul(P[x], Slope(NN, D))]) IN Cross3(v, D) = Zero3
Twice(v) == [x \in 1..3 |-> BMul(BInt(2), v[x])]
LengthFree == Slope(NN, D) # BZero => MeetFits(P, D, O, NN, Hit, Slope(NN, D)) /\ MeetFits(P, Twice(D), O, NN, Hit, Slope(NN, D))
               /\ MeetFits(P, D, O, Twice(NN), Hit, Slope(NN, D))
OnlyOne == Slope(NN, D) # BZero => \A x \in 1..3 : ~MeetFits(P, D, O, NN, [Hit EXCEPT ![x] = BAdd(@, BOne)], Slope(NN, D))
Output == (Emit /\ d[1] + 3 * d[2] + n[1] # 0) => PrintT("OUT|" \o ToJson([p |-> p, d |-> d, o |-> o, n |-> n]))
=============================================================================
