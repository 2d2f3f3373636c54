----------------------------- MODULE Trace_Parse -----------------------------
(***************************************************************************)
(* Explains recorded parser runs by steps of the machine of StepParse.     *)
(* Reports bind to Handle steps; silent handlers, skips of visited or      *)
(* undefined references and the choice of the next root are hidden steps.  *)
(* A record is accepted when some behaviour consumes all its events.       *)
(*  kind "parse": Parse(table), events are what was printed                *)
(*  kind "infer": the bare loop over a graph, every step is logged         *)
(***************************************************************************)
EXTENDS StepReport, TLC, TraceIO

VARIABLES rec, l, st
tvars == <<rec, l, st>>

R == Recs[rec]
KeysOf(r) == IF r.kind = "parse" THEN { r.insts[i].name : i \in 1..Len(r.insts) } ELSE { r.nodes[i].name : i \in 1..Len(r.nodes) }
Tab(r) == LET ks == KeysOf(r)
              at(k) == CHOOSE i \in 1..Len(r.insts) : r.insts[i].name = k
          IN TLCEval([k \in ks |-> r.insts[at(k)]])
Tabs == TLCEval([i \in 1..Len(Recs) |-> IF Recs[i].kind = "parse" /\ Recs[i].status = "ok" THEN Tab(Recs[i]) ELSE <<>>])
T == Tabs[rec]
D == IF R.kind = "parse" THEN DOMAIN T ELSE KeysOf(R)

\* (roots that report nothing and lead nowhere are left out)
Init == /\ rec \in 1..Len(Recs)
        /\ Recs[rec].status = "ok"
        /\ l = 1
        /\ st = ParserInit(IF Recs[rec].kind = "parse" THEN {k \in DOMAIN Tabs[rec] : LET T1 == Tabs[rec] h == RootHandler(T1[k].type)
                                                             IN Report(T1, h, k) # {} \/ Leads(T1, h, k) # <<>>}
                           ELSE KeysOf(Recs[rec]))

Logged(e) == l <= Len(R.events) /\ R.events[l].e = e.e /\ R.events[l].t = e.t /\ { R.events[l].f[i] : i \in 1..Len(R.events[l].f) } = e.f
             /\ Len(R.events[l].f) = Cardinality(e.f)

\* --- Parse
\* Roots nothing leads to that report the same and lead to the same unvisited
\* keys are interchangeable: only one of them is tried next.
Led(tab) == UNION { UNION { { Leads(tab, h, k)[i].key : i \in 1..Len(Leads(tab, h, k)) } : h \in {RootHandler(tab[k].type)} \cup (IF tab[k].type = "PRODUCT_DEFINITION_SHAPE" THEN {"PRODUCT_DEFINITION"} ELSE {}) } : k \in DOMAIN tab }
Leds == TLCEval([i \in 1..Len(Recs) |-> IF Recs[i].kind = "parse" /\ Recs[i].status = "ok" THEN Led(Tabs[i]) ELSE {}])
Sig(k) == LET h == RootHandler(T[k].type) IN <<Report(T, h, k), SelectSeq(Leads(T, h, k), LAMBDA q : q.key \in D \ st.visited)>>
Tried == LET f == st.todo \ Leds[rec]
             sig == TLCEval([k \in f |-> Sig(k)])
         IN (st.todo \ f) \cup { CHOOSE k \in f : sig[k] = s : s \in {sig[k] : k \in f} }
StartRoot == /\ R.kind = "parse" /\ st.queue = <<>>
             /\ \E k \in Tried :
                  /\ CanStart(st, k)
                  /\ LET h == RootHandler(T[k].type) rep == Report(T, h, k)
                     IN /\ k \notin st.visited
                        /\ rep = {} \/ \E e \in rep : Logged(e)
                        /\ st' = Start(st, h, k)
             /\ UNCHANGED <<rec, l>>
HandleHead == /\ R.kind = "parse" /\ Handles(st, D)
              /\ LET q == Head(st.queue) rep == Report(T, q.h, q.key)
                 IN /\ IF rep = {} THEN l' = l ELSE (\E e \in rep : Logged(e)) /\ l' = l + 1
                    /\ st' = Handle(st, Leads(T, q.h, q.key))
              /\ UNCHANGED rec
SkipHead == Skips(st, D) /\ st' = Skip(st) /\ UNCHANGED <<rec, l>>

\* --- the bare loop
Next3(k) == LET i == CHOOSE j \in 1..Len(R.nodes) : R.nodes[j].name = k IN R.nodes[i].next
GStart == /\ R.kind = "infer" /\ l <= Len(R.events) /\ R.events[l][1] = "root"
          /\ LET k == R.events[l][2] IN
               /\ st.queue = <<>>
               /\ st' = [st EXCEPT !.todo = @ \ {k}, !.queue = <<[h |-> "h", key |-> k]>>]
          /\ l' = l + 1 /\ UNCHANGED rec
GHandle == /\ R.kind = "infer" /\ Handles(st, D)
           /\ l <= Len(R.events) /\ R.events[l] = <<"handle", Head(st.queue).key>>
           /\ st' = Handle(st, [i \in 1..Len(Next3(Head(st.queue).key)) |-> [h |-> "h", key |-> Next3(Head(st.queue).key)[i]]])
           /\ l' = l + 1 /\ UNCHANGED rec

Next == StartRoot \/ HandleHead \/ SkipHead \/ GStart \/ GHandle
Spec == Init /\ [][Next]_tvars

Accepted == /\ l = Len(R.events) + 1 /\ st.queue = <<>> /\ st.todo \subseteq st.visited \cup (IF R.kind = "infer" THEN {} ELSE {k \in st.todo : Report(T, RootHandler(T[k].type), k) = {}})
Explained == Accepted => PrintT("ACCEPT|" \o ToString(R.id))
\* on every explained prefix no key is handled twice and the queue is finite
Sane == Len(st.queue) <= 100000
=============================================================================
