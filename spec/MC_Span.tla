------------------------------- MODULE MC_Span -------------------------------
(***************************************************************************)
(* The search for the knot interval: a window low..high that is halved.  All *)
(* knot vectors over small whole numbers, parameters on whole and half        *)
(* numbers in and out of the range.                                           *)
(***************************************************************************)
EXTENDS Span, Sequences, TLC, Json
CONSTANTS MaxP, MaxN, MaxK, Emit
RECURSIVE Rising(_, _)
\* non-decreasing sequences of length k with values from f on
Rising(k, f) == IF k = 0 THEN {<<>>} ELSE UNION {{<<x>> \o t : t \in Rising(k - 1, x)} : x \in f..MaxK}
Init == /\ p \in 0..MaxP /\ n \in p..MaxN
        /\ U \in Rising(n + p + 2, 0)
        /\ \A i \in 1..(n + 1) : U[i] # U[i + p + 1]
        /\ U[p + 1] # U[p + 2] /\ U[n + 1] # U[n + 2]
        /\ u \in (-2)..(2 * MaxK + 2)
        /\ Begin
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Shrinks == [][(pc = "search" /\ pc' = "search") => Size' < Size]_vars
Ends == <>(pc = "done")
Output == (Emit /\ pc = "done") => PrintT("OUT|" \o ToJson([n |-> n, p |-> p, U |-> U, u |-> u]))
=============================================================================
