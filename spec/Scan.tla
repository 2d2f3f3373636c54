--------------------------------- MODULE Scan ---------------------------------
(***************************************************************************)
(* A scan that keeps the best point so far: any number of points, any order    *)
(* of their distances; ties may be kept or replaced.  D[k] is the distance of  *)
(* the k-th point.                                                            *)
(***************************************************************************)
EXTENDS Integers
VARIABLES len, D, i, best
vars == <<len, D, i, best>>
Begin == len \in Nat /\ len >= 1 /\ i = 1 /\ best = 1
Step == /\ i < len /\ i' = i + 1 /\ UNCHANGED <<len, D>>
        /\ \/ D[i + 1] < D[best] /\ best' = i + 1
           \/ D[i + 1] > D[best] /\ best' = best
           \/ D[i + 1] = D[best] /\ best' \in {i + 1, best}
Typed == /\ len \in Nat /\ len >= 1 /\ i \in 1..len /\ best \in 1..i
         /\ \A k \in 1..len : D[k] \in Int
Least == \A k \in 1..i : D[best] =< D[k]
=============================================================================
