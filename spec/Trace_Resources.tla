--------------------------- MODULE Trace_Resources ---------------------------
(***************************************************************************)
(* Recorded histories of calls (C02).  A record:                            *)
(*   start   what the process holds before the first call                    *)
(*   steps   <<call, what it holds after it>>                                *)
(*   pass    so many steps make every call of the history once               *)
(*   ops     ops[k]: what call k is                                          *)
(***************************************************************************)
EXTENDS TraceLoop, Resources
Whose(r, i, s) == {w \o ": " \o r.ops[r.steps[i][1]] : w \in s}
\* only the step that brings a change is to blame
Before(r, i) == IF i = 1 THEN r.start ELSE r.steps[i-1][2]
WhyHeld(r) ==
  IF r.status # "ok" THEN {r.status}
  ELSE UNION {Whose(r, i, Minds(Before(r, i), r.steps[i][2])
                          \cup (IF i <= r.pass THEN {} ELSE Gives(Before(r, i), r.steps[i][2]))) : i \in 1..Len(r.steps)}
=============================================================================
