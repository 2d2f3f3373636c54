------------------------------- MODULE MC_Hull -------------------------------
(* Monotone chain = meaning of the hull, for every subset of a small grid.   *)
(* The machine takes the points in order, one per step.                      *)
EXTENDS Planar, TLC, Json
CONSTANTS W, H, MaxPts, Emit
VARIABLES todo, L, U, taken
vars == <<todo, L, U, taken>>
Pt(x, y) == <<BInt(x), BInt(y)>>
Grid == [i \in 1..(W*H) |-> Pt((i-1) \div H, (i-1) % H)]      \* in increasing order
Init == todo = Grid /\ L = <<>> /\ U = <<>> /\ taken = <<>>
Next == /\ todo # <<>> /\ todo' = Tail(todo)
        /\ \/ Len(taken) < MaxPts /\ L' = Push(L, Head(todo), -1) /\ U' = Push(U, Head(todo), 1) /\ taken' = Append(taken, Head(todo))
           \/ UNCHANGED <<L, U, taken>>
H2 == Chain(taken)
Steps == L = Lower(taken) /\ U = Upper(taken)
Means == (todo = <<>> /\ ~AllCollinear(taken)) => HullMeans(H2, taken)
Flat  == (todo = <<>> /\ AllCollinear(taken)) =>
           /\ (Len(taken) < 2) = (H2 = <<>>)
           /\ Len(taken) >= 2 => {H2[i] : i \in 1..Len(H2)} = {taken[i] : i \in 1..Len(taken)}
Output == (Emit /\ todo = <<>>) => PrintT("OUT|" \o ToJson([p |-> [i \in 1..Len(taken) |-> <<CHOOSE x \in 0..W : BInt(x) = taken[i][1], CHOOSE y \in 0..H : BInt(y) = taken[i][2]>>]]))
=============================================================================
