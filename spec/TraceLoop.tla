------------------------------ MODULE TraceLoop ------------------------------
(***************************************************************************)
(* Checks recorded executions of the implementation, one record per call,  *)
(* against a specification operator.  The records are cut into chunks so   *)
(* that TLC's workers share them; within a chunk they are taken in order.  *)
(* Why(r) is the set of clauses of the specification record r violates.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, TraceIO

CONSTANT Why(_)

LOCAL NRecs == Len(Recs)
LOCAL Chunk == 1 + NRecs \div 64

VARIABLES chunk, pos, bad
loopVars == <<chunk, pos, bad>>

Init == /\ chunk \in 0..((NRecs - 1) \div Chunk)
        /\ pos = chunk * Chunk
        /\ bad = {}

Check(r) == LET w == Why(r)
            IN IF w = {} THEN w
               ELSE IF PrintT("REJECT|" \o ToString(r.id) \o "|" \o ToString(w)) THEN w ELSE w

Next == /\ pos < NRecs
        /\ pos < (chunk + 1) * Chunk
        /\ pos' = pos + 1
        /\ bad' = Check(Recs[pos + 1])
        /\ UNCHANGED chunk

Spec == Init /\ [][Next]_loopVars
\* Helper for clause sets.
Need(name, cond) == IF cond THEN {} ELSE {name}
=============================================================================
