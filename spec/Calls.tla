------------------------------- MODULE Calls -------------------------------
(***************************************************************************)
(* Calls made by processes, one after another in a process and at the same *)
(* time in different ones.  Each call is answered with what it returns     *)
(* when it is the only one ever made.                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
NoCall == 0
Idle(procs) == [p \in procs |-> NoCall]
CanBegin(open, p)      == open[p] = NoCall
Begun(open, p, k)      == [open EXCEPT ![p] = k]
CanEnd(open, p, k)     == open[p] = k /\ k # NoCall
Ended(open, p)         == [open EXCEPT ![p] = NoCall]
Answer(alone, k, v)    == v = alone[k]
=============================================================================
