---------------------------- MODULE Trace_Calls ----------------------------
(***************************************************************************)
(* Recorded histories of calls (C01).  A record:                            *)
(*   ev      <<process, call, answer>> in the order of time; answer 0: the   *)
(*           call begins.  Answers are numbered per call, equal ones equally *)
(*   alone   alone[k]: the answer of call k in a process of its own          *)
(*   ops     ops[k]: what call k is                                          *)
(*   races   accesses to shared memory which nothing orders, as seen by the  *)
(*           race detector                                                   *)
(***************************************************************************)
EXTENDS TraceLoop, Calls, SequencesExt
ProcsOf(r) == {r.ev[i][1] : i \in 1..Len(r.ev)}
Step(r, s, e) ==
  LET p == e[1]  k == e[2]  v == e[3]
  IN IF v = 0 THEN [s EXCEPT !.open = Begun(@, p, k), !.bad = IF CanBegin(s.open, p) THEN @ ELSE @ \cup {"record"}]
     ELSE [s EXCEPT !.open = Ended(@, p),
                    !.bad = @ \cup (IF ~CanEnd(s.open, p, k) THEN {"record"}
                                    ELSE Need("not the answer it gives alone: " \o r.ops[k], Answer(r.alone, k, v)))]
WhyCalls(r) ==
  IF r.status # "ok" THEN {r.status}
  ELSE LET s == FoldLeft(LAMBDA acc, e : Step(r, acc, e), [open |-> Idle(ProcsOf(r)), bad |-> {}], r.ev)
       IN s.bad \cup Need("a call did not end", \A p \in ProcsOf(r) : s.open[p] = NoCall)
          \cup {"unordered access to shared memory: " \o r.races[i] : i \in 1..Len(r.races)}
=============================================================================
