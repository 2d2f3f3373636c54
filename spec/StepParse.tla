------------------------------ MODULE StepParse ------------------------------
(***************************************************************************)
(* The inference loop of the STEP parser (step/parse.go).                  *)
(*   todo     keys of the table whose own run has not started yet          *)
(*   queue    pending [h, key] states, first in first out ("nextStates")   *)
(*   visited  keys already handled                                         *)
(* Roots are started in any order (Go's map order); a root's run goes on   *)
(* until the queue is empty.  What a handler queues is Children(h, key);   *)
(* Defined is the set of keys the table has.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

ParserInit(keys) == [todo |-> keys, queue |-> <<>>, visited |-> {}]

CanStart(st, k) == st.queue = <<>> /\ k \in st.todo
Start(st, h, k) == [st EXCEPT !.todo = @ \ {k}, !.queue = <<[h |-> h, key |-> k]>>]

Handles(st, defined) == /\ st.queue # <<>>
                        /\ Head(st.queue).key \in defined \ st.visited
Skips(st, defined) == /\ st.queue # <<>>
                      /\ Head(st.queue).key \notin defined \ st.visited
Handle(st, children) == [st EXCEPT !.queue = Tail(@) \o children, !.visited = @ \cup {Head(st.queue).key}]
Skip(st) == [st EXCEPT !.queue = Tail(@)]
Finished(st) == st.todo = {} /\ st.queue = <<>>
=============================================================================
