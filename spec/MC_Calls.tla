------------------------------ MODULE MC_Calls ------------------------------
(***************************************************************************)
(* Ways for calls to keep what they work on, and which of them answer every *)
(* call as if it were alone, in every interleaving of their steps.  A call  *)
(* k takes a cell, puts its argument there, works on it, and reads the      *)
(* answer from it.                                                          *)
(*   own      a cell of its own                                             *)
(*   pool     a cell from a pool, given back after the answer is read       *)
(*   memo     answers kept under the whole argument                         *)
(*   global   one cell for all                                              *)
(*   early    a cell from a pool, given back before the answer is read      *)
(*   kept     a cell of the process, whose content is not cleared           *)
(*   short    answers kept under a part of the argument                     *)
(*   torn     the last argument and its answer, stored one after the other  *)
(***************************************************************************)
EXTENDS Calls, TLC
CONSTANTS Way, NProc, NCall, Rounds
Procs == 1..NProc
Cells == 1..(NProc + 1)
Alone == [k \in 1..NCall |-> k * k + k]
Part(k) == k % 2
VARIABLES open, pc, cell, mem, free, memo, todo, said
vars == <<open, pc, cell, mem, free, memo, todo, said>>
Init == /\ open = Idle(Procs) /\ pc = [p \in Procs |-> "idle"] /\ cell = [p \in Procs |-> 0]
        /\ mem = [c \in Cells |-> 0] /\ free = Cells
        /\ memo = [k \in 0..NCall |-> 0]     \* torn: 0 -> last argument, 1 -> its answer
        /\ todo = [p \in Procs |-> Rounds]
        /\ said = {}
Pooled == Way \in {"pool", "early"}
Start(p, k) ==
  /\ CanBegin(open, p) /\ todo[p] > 0
  /\ open' = Begun(open, p, k) /\ todo' = [todo EXCEPT ![p] = @ - 1]
  /\ LET known == \/ Way = "memo" /\ memo[k] # 0
                  \/ Way = "short" /\ memo[Part(k)] # 0
                  \/ Way = "torn" /\ memo[0] = k
     IN pc' = [pc EXCEPT ![p] = IF known THEN "recall" ELSE "put"]
  /\ IF Pooled THEN \E c \in free : cell' = [cell EXCEPT ![p] = c] /\ free' = free \ {c}
     ELSE cell' = [cell EXCEPT ![p] = IF Way = "global" THEN 1 ELSE p] /\ UNCHANGED free
  /\ UNCHANGED <<mem, memo, said>>
Put(p) ==
  /\ pc[p] = "put"
  /\ mem' = [mem EXCEPT ![cell[p]] = IF Way = "kept" THEN @ + open[p] ELSE open[p]]
  /\ pc' = [pc EXCEPT ![p] = "work"]
  /\ UNCHANGED <<open, cell, free, memo, todo, said>>
Work(p) ==
  /\ pc[p] = "work"
  /\ mem' = [mem EXCEPT ![cell[p]] = @ + open[p] * open[p]]
  /\ pc' = [pc EXCEPT ![p] = IF Way \in {"memo", "short", "torn"} THEN "keep" ELSE "read"]
  /\ free' = IF Way = "early" THEN free \cup {cell[p]} ELSE free
  /\ UNCHANGED <<open, cell, memo, todo, said>>
Keep(p) ==
  /\ pc[p] = "keep"
  /\ memo' = CASE Way = "memo"  -> [memo EXCEPT ![open[p]] = mem[cell[p]]]
               [] Way = "short" -> [memo EXCEPT ![Part(open[p])] = mem[cell[p]]]
               [] OTHER         -> [memo EXCEPT ![0] = open[p]]
  /\ pc' = [pc EXCEPT ![p] = IF Way = "torn" THEN "keep2" ELSE "read"]
  /\ UNCHANGED <<open, cell, mem, free, todo, said>>
Keep2(p) ==
  /\ pc[p] = "keep2" /\ memo' = [memo EXCEPT ![1] = mem[cell[p]]] /\ pc' = [pc EXCEPT ![p] = "read"]
  /\ UNCHANGED <<open, cell, mem, free, todo, said>>
Finish(p, v) ==
  /\ CanEnd(open, p, open[p])
  /\ said' = said \cup {<<open[p], v>>}
  /\ open' = Ended(open, p) /\ pc' = [pc EXCEPT ![p] = "idle"]
Read(p) == /\ pc[p] = "read" /\ Finish(p, mem[cell[p]])
           /\ free' = IF Pooled THEN free \cup {cell[p]} ELSE free
           /\ UNCHANGED <<cell, mem, memo, todo>>
Recall(p) == /\ pc[p] = "recall"
             /\ Finish(p, memo[CASE Way = "memo" -> open[p] [] Way = "short" -> Part(open[p]) [] OTHER -> 1])
             /\ UNCHANGED <<cell, mem, free, memo, todo>>
Next == \E p \in Procs : \/ \E k \in 1..NCall : Start(p, k)
                         \/ Put(p) \/ Work(p) \/ Keep(p) \/ Keep2(p) \/ Read(p) \/ Recall(p)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Independent == \A s \in said : Answer(Alone, s[1], s[2])
Ends == <>(\A p \in Procs : open[p] = NoCall /\ todo[p] = 0)
=============================================================================
