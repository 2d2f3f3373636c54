----------------------------- MODULE MC_StepParse -----------------------------
(***************************************************************************)
(* All reference graphs over a few keys (shared, self-referential, cyclic  *)
(* and undefined references) and all orders of roots.                      *)
(***************************************************************************)
EXTENDS StepParse, TLC, Json
CONSTANTS Wide, Emit
Keys == {"a", "b", "c"}
Targets == Keys \cup {"x"}                     \* x is not defined
Seqs(n) == UNION { [1..m -> Targets] : m \in 0..n }
Graphs == { g \in [Keys -> Seqs(2)] : Wide \/ (Len(g["c"]) <= 1 /\ Len(g["a"]) + Len(g["b"]) <= 3) }

VARIABLES graph, st, roots, events
vars == <<graph, st, roots, events>>
Init == graph \in Graphs /\ st = ParserInit(Keys) /\ roots = <<>> /\ events = <<>>
Children(k) == [i \in 1..Len(graph[k]) |-> [h |-> "h", key |-> graph[k][i]]]

StartRoot == \E k \in Keys :
  /\ CanStart(st, k) /\ st' = Start(st, "h", k)
  /\ roots' = Append(roots, k) /\ events' = Append(events, <<"root", k>>) /\ UNCHANGED graph
HandleHead == /\ Handles(st, Keys)
              /\ LET k == Head(st.queue).key
                 IN st' = Handle(st, Children(k)) /\ events' = Append(events, <<"handle", k>>)
              /\ UNCHANGED <<graph, roots>>
SkipHead == Skips(st, Keys) /\ st' = Skip(st) /\ UNCHANGED <<graph, roots, events>>
Next == StartRoot \/ HandleHead \/ SkipHead
Spec == Init /\ [][Next]_vars

Handled == { i \in 1..Len(events) : events[i][1] = "handle" }
AtMostOnce == \A i, j \in Handled : events[i][2] = events[j][2] => i = j
AllInTheEnd == Finished(st) => { events[i][2] : i \in Handled } = Keys
\* a referenced key is handled before the next root starts
FollowedFirst == [][ StartRoot => \A k \in st.visited : \A i \in 1..Len(graph[k]) :
                       graph[k][i] \in Keys => graph[k][i] \in st.visited ]_vars
\* handling ends: every step lowers this measure
Measure(s) == 100 * Cardinality(s.todo) + 10 * Cardinality(Keys \ s.visited) + Len(s.queue)
Ends == [][ Measure(st') < Measure(st) ]_vars
Stuck == ~Finished(st) => ENABLED Next
Output == (Finished(st) /\ Emit) => PrintT("OUT|" \o ToJson([next |-> graph, roots |-> roots, events |-> events]))
=============================================================================
