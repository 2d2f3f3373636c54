------------------------------ MODULE Proof_Parse ------------------------------
(***************************************************************************)
(* The inference loop of StepParse over any set of keys, any references and    *)
(* any order of roots: Inv is inductive. Hence no key is handled twice, a      *)
(* root starts only when everything reachable by what was handled has been     *)
(* handled, and when the loop has finished every key has been handled.         *)
(***************************************************************************)
EXTENDS StepParse, TLAPS
CONSTANTS Keys, Others, Hs, Refs
States == [h : Hs, key : Keys \cup Others]
ASSUME RefsType == Refs \in [Keys -> Seq(States)]
VARIABLES st, times
vars == <<st, times>>
Init == st = ParserInit(Keys) /\ times = [k \in Keys |-> 0]
StartRoot == \E k \in Keys, h \in Hs : CanStart(st, k) /\ st' = Start(st, h, k) /\ UNCHANGED times
HandleHead == /\ Handles(st, Keys)
              /\ st' = Handle(st, Refs[Head(st.queue).key])
              /\ times' = [times EXCEPT ![Head(st.queue).key] = @ + 1]
SkipHead == Skips(st, Keys) /\ st' = Skip(st) /\ UNCHANGED times
Next == StartRoot \/ HandleHead \/ SkipHead

Queued(q, k) == \E i \in 1..Len(q) : q[i].key = k
Types == st \in [todo : SUBSET Keys, queue : Seq(States), visited : SUBSET Keys]
Started == \A k \in Keys \ st.todo : k \in st.visited \/ Queued(st.queue, k)
Followed == \A k \in st.visited : \A i \in 1..Len(Refs[k]) :
              Refs[k][i].key \in Keys => Refs[k][i].key \in st.visited \/ Queued(st.queue, Refs[k][i].key)
Once == times = [k \in Keys |-> IF k \in st.visited THEN 1 ELSE 0]
Inv == Types /\ Started /\ Followed /\ Once

LEMMA TailOf == ASSUME NEW S, NEW q \in Seq(S), q # <<>>
                PROVE  /\ Head(q) \in S /\ Tail(q) \in Seq(S) /\ Len(q) \in Nat /\ Len(q) > 0
                       /\ Len(Tail(q)) = Len(q) - 1 /\ Head(q) = q[1]
                       /\ \A i \in 1..(Len(q) - 1) : Tail(q)[i] = q[i + 1]
  OBVIOUS

LEMMA Pops == ASSUME NEW S, NEW q \in Seq(S), q # <<>>, NEW k, Queued(q, k), k # Head(q).key
              PROVE  Queued(Tail(q), k)
<1>1. PICK i \in 1..Len(q) : q[i].key = k
  BY DEF Queued
<1>2. Len(q) \in Nat /\ i # 1 /\ Len(Tail(q)) = Len(q) - 1 /\ \A j \in 1..(Len(q) - 1) : Tail(q)[j] = q[j + 1]
  BY <1>1, TailOf
<1>3. i - 1 \in 1..(Len(q) - 1) /\ (i - 1) + 1 = i
  BY <1>1, <1>2
<1>4. Tail(q)[i - 1] = q[i]
  BY <1>2, <1>3
<1> QED BY <1>1, <1>2, <1>3, <1>4 DEF Queued

LEMMA Joins == ASSUME NEW S, NEW q \in Seq(S), NEW r \in Seq(S), NEW k
               PROVE  /\ q \o r \in Seq(S)
                      /\ Queued(q, k) => Queued(q \o r, k)
                      /\ Queued(r, k) => Queued(q \o r, k)
<1>1. q \o r \in Seq(S) /\ Len(q) \in Nat /\ Len(r) \in Nat /\ Len(q \o r) = Len(q) + Len(r)
  OBVIOUS
<1>2. \A i \in 1..Len(q) : (q \o r)[i] = q[i] /\ i \in 1..Len(q \o r)
  BY <1>1
<1>3. \A i \in 1..Len(r) : (q \o r)[Len(q) + i] = r[i] /\ Len(q) + i \in 1..Len(q \o r)
  BY <1>1
<1>4. Queued(q, k) => Queued(q \o r, k)
  BY <1>2 DEF Queued
<1>5. Queued(r, k) => Queued(q \o r, k)
  BY <1>3 DEF Queued
<1> QED BY <1>1, <1>4, <1>5

THEOREM First == Init => Inv
<1> SUFFICES ASSUME Init PROVE Inv
  OBVIOUS
<1>1. st.todo = Keys /\ st.queue = <<>> /\ st.visited = {} /\ st = [todo |-> Keys, queue |-> <<>>, visited |-> {}]
  BY DEF Init, ParserInit
<1> QED BY <1>1 DEF Init, Inv, Types, Started, Followed, Once

THEOREM Inductive == Inv /\ [Next]_vars => Inv'
<1> SUFFICES ASSUME Inv, [Next]_vars PROVE Inv'
  OBVIOUS
<1>0. /\ st.todo \in SUBSET Keys /\ st.queue \in Seq(States) /\ st.visited \in SUBSET Keys
      /\ st = [todo |-> st.todo, queue |-> st.queue, visited |-> st.visited]
  BY DEF Inv, Types
<1>1. CASE StartRoot
  <2>1. PICK k \in Keys, h \in Hs : CanStart(st, k) /\ st' = Start(st, h, k) /\ UNCHANGED times
    BY <1>1 DEF StartRoot
  <2>2. st.queue = <<>> /\ k \in st.todo
    BY <2>1 DEF CanStart
  <2>3. st'.todo = st.todo \ {k} /\ st'.queue = <<[h |-> h, key |-> k]>> /\ st'.visited = st.visited
    BY <2>1, <1>0 DEF Start
  <2>4. [h |-> h, key |-> k] \in States
    BY DEF States
  <2>5. Types'
    BY <2>1, <2>3, <2>4, <1>0 DEF Types, Start
  <2>6. \A x : ~Queued(st.queue, x)
    BY <2>2 DEF Queued
  <2>7. Queued(st'.queue, k)
    BY <2>3 DEF Queued
  <2>8. Started'
    BY <2>3, <2>6, <2>7 DEF Inv, Started
  <2>9. Followed'
    BY <2>3, <2>6 DEF Inv, Followed
  <2>10. Once'
    BY <2>1, <2>3 DEF Inv, Once
  <2> QED BY <2>5, <2>8, <2>9, <2>10 DEF Inv
<1>2. CASE HandleHead
  <2> DEFINE c == Head(st.queue).key
  <2>1. st.queue # <<>> /\ c \in Keys /\ c \notin st.visited
    BY <1>2 DEF HandleHead, Handles
  <2>2. Tail(st.queue) \in Seq(States) /\ Refs[c] \in Seq(States)
    BY <2>1, <1>0, RefsType, TailOf
  <2>3. /\ st'.todo = st.todo /\ st'.queue = Tail(st.queue) \o Refs[c] /\ st'.visited = st.visited \cup {c}
        /\ st' = [todo |-> st'.todo, queue |-> st'.queue, visited |-> st'.visited]
    BY <1>2, <1>0 DEF HandleHead, Handle
  <2>4. Types'
    BY <2>1, <2>2, <2>3, <1>0, Joins DEF Types
  <2>5. ASSUME NEW x, Queued(st.queue, x) PROVE x = c \/ Queued(st'.queue, x)
    BY <2>1, <2>2, <2>3, <2>5, <1>0, Pops, Joins
  <2>6. Started'
    BY <2>3, <2>5 DEF Inv, Started
  <2>7. ASSUME NEW i \in 1..Len(Refs[c]) PROVE Queued(st'.queue, Refs[c][i].key)
    <3>1. Queued(Refs[c], Refs[c][i].key)
      BY DEF Queued
    <3> QED BY <3>1, <2>2, <2>3, Joins
  <2>8. Followed'
    BY <2>3, <2>5, <2>7 DEF Inv, Followed
  <2>9. times' = [times EXCEPT ![c] = @ + 1]
    BY <1>2 DEF HandleHead
  <2>10. Once'
    BY <2>1, <2>3, <2>9 DEF Inv, Once
  <2> QED BY <2>4, <2>6, <2>8, <2>10 DEF Inv
<1>3. CASE SkipHead
  <2> DEFINE c == Head(st.queue).key
  <2>1. st.queue # <<>> /\ (c \in Keys => c \in st.visited)
    BY <1>3 DEF SkipHead, Skips
  <2>2. Tail(st.queue) \in Seq(States)
    BY <2>1, <1>0, TailOf
  <2>3. /\ st'.todo = st.todo /\ st'.queue = Tail(st.queue) /\ st'.visited = st.visited
        /\ st' = [todo |-> st'.todo, queue |-> st'.queue, visited |-> st'.visited]
    BY <1>3, <1>0 DEF SkipHead, Skip
  <2>4. Types'
    BY <2>2, <2>3, <1>0 DEF Types
  <2>5. ASSUME NEW x, Queued(st.queue, x) PROVE x = c \/ Queued(st'.queue, x)
    BY <2>1, <2>3, <2>5, <1>0, Pops
  <2>6. Started'
    BY <2>1, <2>3, <2>5, <1>0 DEF Inv, Started
  <2>7. Followed'
    BY <2>1, <2>3, <2>5 DEF Inv, Followed
  <2>8. Once'
    BY <1>3, <2>3 DEF SkipHead, Inv, Once
  <2> QED BY <2>4, <2>6, <2>7, <2>8 DEF Inv
<1>4. CASE UNCHANGED vars
  BY <1>4 DEF vars, Inv, Types, Started, Followed, Once
<1> QED BY <1>1, <1>2, <1>3, <1>4 DEF Next

THEOREM AtMostOnce == Inv => \A k \in Keys : times[k] \in {0, 1}
  BY DEF Inv, Once
THEOREM AllInTheEnd == Inv /\ Finished(st) => st.visited = Keys /\ \A k \in Keys : times[k] = 1
<1> SUFFICES ASSUME Inv, Finished(st) PROVE st.visited = Keys /\ \A k \in Keys : times[k] = 1
  OBVIOUS
<1>1. st.todo = {} /\ st.queue = <<>> /\ st.visited \subseteq Keys
  BY DEF Finished, Inv, Types
<1>2. \A x : ~Queued(st.queue, x)
  BY <1>1 DEF Queued
<1> QED BY <1>1, <1>2 DEF Inv, Started, Once
THEOREM FollowedFirst == Inv /\ StartRoot => \A k \in st.visited : \A i \in 1..Len(Refs[k]) :
                           Refs[k][i].key \in Keys => Refs[k][i].key \in st.visited
<1> SUFFICES ASSUME Inv, StartRoot PROVE \A k \in st.visited : \A i \in 1..Len(Refs[k]) :
                           Refs[k][i].key \in Keys => Refs[k][i].key \in st.visited
  OBVIOUS
<1>1. st.queue = <<>>
  BY DEF StartRoot, CanStart
<1>2. \A x : ~Queued(st.queue, x)
  BY <1>1 DEF Queued
<1> QED BY <1>2 DEF Inv, Followed
\* every step lowers (todo, keys not visited, length of the queue), compared in
\* this order; with finitely many keys that cannot go on for ever
THEOREM Ends == Inv /\ Next =>
  \/ st'.todo \subseteq st.todo /\ st'.todo # st.todo
  \/ st'.todo = st.todo /\ (Keys \ st'.visited) \subseteq (Keys \ st.visited) /\ (Keys \ st'.visited) # (Keys \ st.visited)
  \/ st'.todo = st.todo /\ st'.visited = st.visited /\ Len(st'.queue) < Len(st.queue) /\ Len(st'.queue) \in Nat
<1> SUFFICES ASSUME Inv, Next PROVE
      \/ st'.todo \subseteq st.todo /\ st'.todo # st.todo
      \/ st'.todo = st.todo /\ (Keys \ st'.visited) \subseteq (Keys \ st.visited) /\ (Keys \ st'.visited) # (Keys \ st.visited)
      \/ st'.todo = st.todo /\ st'.visited = st.visited /\ Len(st'.queue) < Len(st.queue) /\ Len(st'.queue) \in Nat
  OBVIOUS
<1>0. /\ st.todo \in SUBSET Keys /\ st.queue \in Seq(States) /\ st.visited \in SUBSET Keys
      /\ st = [todo |-> st.todo, queue |-> st.queue, visited |-> st.visited]
  BY DEF Inv, Types
<1>1. CASE StartRoot
  <2>1. PICK k \in Keys, h \in Hs : CanStart(st, k) /\ st' = Start(st, h, k)
    BY <1>1 DEF StartRoot
  <2>2. k \in st.todo /\ st'.todo = st.todo \ {k}
    BY <2>1, <1>0 DEF CanStart, Start
  <2> QED BY <2>2
<1>2. CASE HandleHead
  <2> DEFINE c == Head(st.queue).key
  <2>1. c \in Keys /\ c \notin st.visited /\ st'.todo = st.todo /\ st'.visited = st.visited \cup {c}
    BY <1>2, <1>0 DEF HandleHead, Handles, Handle
  <2> QED BY <2>1
<1>3. CASE SkipHead
  <2>1. st.queue # <<>> /\ st'.todo = st.todo /\ st'.visited = st.visited /\ st'.queue = Tail(st.queue)
    BY <1>3, <1>0 DEF SkipHead, Skips, Skip
  <2>2. Len(Tail(st.queue)) = Len(st.queue) - 1 /\ Len(st.queue) \in Nat /\ Len(st.queue) > 0
    BY <2>1, <1>0, TailOf
  <2> QED BY <2>1, <2>2
<1> QED BY <1>1, <1>2, <1>3 DEF Next
\* and the loop is never stuck
THEOREM NeverStuck == Inv /\ ~Finished(st) /\ Hs # {} =>
  \/ \E k \in Keys, h \in Hs : CanStart(st, k)
  \/ Handles(st, Keys) \/ Skips(st, Keys)
  BY DEF Inv, Types, Finished, CanStart, Handles, Skips
=============================================================================
