--------------------------------- MODULE Span ---------------------------------
(***************************************************************************)
(* The search for the knot interval of a parameter: a window low..high that  *)
(* is halved.  MC_Span walks it with TLC over every small knot vector, and    *)
(* Proof_Span proves the same Inv, Found and Shrinks for every knot vector.   *)
(***************************************************************************)
EXTENDS Integers
VARIABLES n, p, U, u, pc, low, mid, high
vars == <<n, p, U, u, pc, low, mid, high>>
K(i) == 2 * U[i + 1]          \* u counts halves
\* what a valid knot vector offers to the search
Dom == /\ n \in Nat /\ p \in Nat /\ p =< n /\ u \in Int
       /\ \A i \in 0..(n + p + 1) : K(i) \in Int
       /\ K(p) < K(p + 1) /\ K(n) < K(n + 1)
Begin == pc = "start" /\ low = 0 /\ mid = 0 /\ high = 0
Done(r) == pc' = "done" /\ mid' = r
Start == /\ pc = "start"
         /\ IF u >= K(n + 1) THEN Done(n) /\ UNCHANGED <<low, high>>
            ELSE IF u < K(p) THEN Done(p) /\ UNCHANGED <<low, high>>
            ELSE /\ low' = p /\ high' = n + 1 /\ mid' = (p + n + 1) \div 2
                 /\ pc' = "search"
         /\ UNCHANGED <<n, p, U, u>>
Search == /\ pc = "search"
          /\ IF u >= K(mid) /\ u < K(mid + 1) THEN Done(mid) /\ UNCHANGED <<low, high>>
             ELSE /\ IF u < K(mid) THEN high' = mid /\ low' = low ELSE low' = mid /\ high' = high
                  /\ mid' = (low' + high') \div 2 /\ pc' = pc
          /\ UNCHANGED <<n, p, U, u>>
Next == Start \/ Search

Window == pc = "search" => /\ p =< low /\ low < high /\ high =< n + 1
                           /\ mid = (low + high) \div 2
                           /\ K(low) =< u /\ u < K(high)
                           /\ K(p) =< u /\ u < K(n + 1)
Found == pc = "done" => /\ mid \in p..n /\ K(mid) < K(mid + 1)
                        /\ IF u >= K(n + 1) THEN mid = n
                           ELSE IF u < K(p) THEN mid = p ELSE K(mid) =< u /\ u < K(mid + 1)
Inv == /\ Dom /\ pc \in {"start", "search", "done"}
       /\ low \in Int /\ high \in Int /\ mid \in Int
       /\ Window /\ Found
\* the number of intervals still in the window
Size == high - low
=============================================================================
