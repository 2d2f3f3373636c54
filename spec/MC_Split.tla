------------------------------ MODULE MC_Split ------------------------------
(* Inserting point 4 into tetrahedron 0..3: the four tetrahedra are laid     *)
(* down one after another, in any order, each face seen from both sides.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANT Emit
VARIABLES done, count
Canon3(t) == IF t[1] < t[2] /\ t[1] < t[3] THEN t ELSE IF t[2] < t[1] /\ t[2] < t[3] THEN <<t[2], t[3], t[1]>> ELSE <<t[3], t[1], t[2]>>
Facings == {<<a, b, c>> \in (0..4) \X (0..4) \X (0..4) : a < b /\ a < c /\ b # c}
Faces == {S \in SUBSET (0..3) : Cardinality(S) = 3}
Init == done = {} /\ count = [f \in Facings |-> 0]
Lay(b) == /\ b \notin done /\ done' = done \cup {b}
          /\ count' = [f \in Facings |-> IF {f[1], f[2], f[3]} \subseteq b \cup {4} THEN count[f] + 1 ELSE count[f]]
Next == \E b \in Faces : Lay(b)
Inner(f) == 4 \in {f[1], f[2], f[3]}
End == done = Faces => \A f \in Facings : count[f] = IF Inner(f) THEN 2 ELSE 1
\* all the while both sides are listed equally often
Balanced == \A f \in Facings : count[f] = count[<<f[1], f[3], f[2]>>]
Output == (Emit /\ done = Faces) => PrintT("OUT|" \o ToJson([n |-> 32]))
=============================================================================
