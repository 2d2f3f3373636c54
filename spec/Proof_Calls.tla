------------------------------ MODULE Proof_Calls ------------------------------
(* MC_Calls with a cell of its own, a pool, or answers kept under the whole      *)
(* argument: any number of processes, calls and rounds, in every interleaving   *)
(* each call is answered as if it were alone.                                   *)
EXTENDS MC_Calls, TLAPS
ASSUME Sizes == NProc \in Nat /\ NCall \in Nat /\ Rounds \in Nat
ASSUME Sound == Way \in {"own", "pool", "memo"}
Busy(p) == pc[p] \in {"put", "work", "keep", "read"}
Types == /\ open \in [Procs -> Nat] /\ pc \in [Procs -> {"idle", "put", "work", "keep", "read", "recall"}]
         /\ cell \in [Procs -> Nat] /\ mem \in [Cells -> Int] /\ free \in SUBSET Cells
         /\ memo \in [0..NCall -> Int] /\ todo \in [Procs -> Int]
Calling == \A p \in Procs : (pc[p] = "idle" /\ open[p] = NoCall) \/ (pc[p] # "idle" /\ open[p] \in 1..NCall)
Own == /\ \A p \in Procs : Busy(p) => cell[p] \in Cells /\ (Way = "pool" => cell[p] \notin free) /\ (Way # "pool" => cell[p] = p)
       /\ \A p, r \in Procs : Busy(p) /\ Busy(r) /\ p # r => cell[p] # cell[r]
Holds == \A p \in Procs : /\ pc[p] = "work" => mem[cell[p]] = open[p]
                          /\ pc[p] \in {"keep", "read"} => mem[cell[p]] = Alone[open[p]]
                          /\ pc[p] = "recall" => Way = "memo" /\ memo[open[p]] = Alone[open[p]]
                          /\ pc[p] = "keep" => Way = "memo"
Memo == \A k \in 1..NCall : memo[k] # 0 => memo[k] = Alone[k]
Inv == Types /\ Calling /\ Own /\ Holds /\ Memo /\ Independent

LEMMA Values == \A k \in 1..NCall : Alone[k] \in Int /\ Alone[k] = k * k + k /\ k \in Nat
  BY Sizes DEF Alone

THEOREM First == Init => Inv
  BY Sizes DEF Init, Inv, Types, Calling, Own, Holds, Memo, Independent, Idle, NoCall, Busy, Procs, Cells

THEOREM Inductive == Inv /\ [Next]_vars => Inv'
<1> SUFFICES ASSUME Inv, [Next]_vars PROVE Inv'
  OBVIOUS
<1> USE Sizes, Sound
<1>p. \A p \in Procs : p \in Cells
  BY DEF Procs, Cells
<1>1. ASSUME NEW p \in Procs, NEW k \in 1..NCall, Start(p, k) PROVE Inv'
  <2>0. /\ open[p] = NoCall /\ open' = [open EXCEPT ![p] = k] /\ UNCHANGED <<mem, memo, said>>
        /\ todo' = [todo EXCEPT ![p] = @ - 1] /\ pc[p] = "idle"
    BY <1>1 DEF Start, CanBegin, Begun, Inv, Calling, NoCall
  <2>1. \/ pc' = [pc EXCEPT ![p] = "put"]
        \/ pc' = [pc EXCEPT ![p] = "recall"] /\ Way = "memo" /\ memo[k] # 0
    BY <1>1 DEF Start
  <2>2. \/ Way = "pool" /\ \E c \in free : cell' = [cell EXCEPT ![p] = c] /\ free' = free \ {c}
        \/ Way # "pool" /\ cell' = [cell EXCEPT ![p] = p] /\ free' = free
    BY <1>1 DEF Start, Pooled
  <2>3. Types'
    BY <2>0, <2>1, <2>2 DEF Inv, Types, Procs, Cells
  <2>4. Calling'
    BY <2>0, <2>1 DEF Inv, Types, Calling
  <2>5. Own'
    BY <2>0, <2>1, <2>2, <1>p DEF Inv, Types, Own, Busy
  <2>6. Holds'
    BY <2>0, <2>1, <2>2 DEF Inv, Types, Holds, Memo, Calling
  <2> QED BY <2>0, <2>3, <2>4, <2>5, <2>6 DEF Inv, Memo, Independent
<1>2. ASSUME NEW p \in Procs, Put(p) PROVE Inv'
  <2>0. /\ pc[p] = "put" /\ mem' = [mem EXCEPT ![cell[p]] = open[p]] /\ pc' = [pc EXCEPT ![p] = "work"]
        /\ UNCHANGED <<open, cell, free, memo, todo, said>> /\ cell[p] \in Cells
    BY <1>2 DEF Put, Inv, Own, Busy
  <2>3. Types' /\ Calling' /\ Own'
    BY <2>0 DEF Inv, Types, Calling, Own, Busy
  <2>6. Holds'
    BY <2>0 DEF Inv, Types, Holds, Own, Busy
  <2> QED BY <2>0, <2>3, <2>6 DEF Inv, Memo, Independent
<1>3. ASSUME NEW p \in Procs, Work(p) PROVE Inv'
  <2>0. /\ pc[p] = "work" /\ mem' = [mem EXCEPT ![cell[p]] = @ + open[p] * open[p]]
        /\ pc' = [pc EXCEPT ![p] = IF Way = "memo" THEN "keep" ELSE "read"]
        /\ UNCHANGED <<open, cell, free, memo, todo, said>> /\ cell[p] \in Cells
        /\ mem[cell[p]] = open[p] /\ open[p] \in 1..NCall
    BY <1>3 DEF Work, Inv, Own, Busy, Holds, Calling
  <2>1. open[p] + open[p] * open[p] = Alone[open[p]] /\ open[p] + open[p] * open[p] \in Int
    BY <2>0, Values
  <2>2. mem'[cell[p]] = Alone[open[p]]
    BY <2>0, <2>1 DEF Inv, Types
  <2>3. Types' /\ Calling' /\ Own'
    BY <2>0, <2>1 DEF Inv, Types, Calling, Own, Busy
  <2>6. Holds'
    BY <2>0, <2>2 DEF Inv, Types, Holds, Own, Busy
  <2> QED BY <2>0, <2>3, <2>6 DEF Inv, Memo, Independent
<1>4. ASSUME NEW p \in Procs, Keep(p) PROVE Inv'
  <2>0. /\ pc[p] = "keep" /\ Way = "memo" /\ memo' = [memo EXCEPT ![open[p]] = mem[cell[p]]] /\ pc' = [pc EXCEPT ![p] = "read"]
        /\ UNCHANGED <<open, cell, mem, free, todo, said>> /\ mem[cell[p]] = Alone[open[p]] /\ open[p] \in 1..NCall
        /\ Alone[open[p]] \in Int
    BY <1>4, Values DEF Keep, Inv, Holds, Calling
  <2>3. Types' /\ Calling' /\ Own'
    BY <2>0 DEF Inv, Types, Calling, Own, Busy
  <2>6. Holds' /\ Memo'
    BY <2>0 DEF Inv, Types, Holds, Memo, Calling
  <2> QED BY <2>0, <2>3, <2>6 DEF Inv, Independent
<1>5. ASSUME NEW p \in Procs, Keep2(p) PROVE Inv'
  BY <1>5 DEF Keep2, Inv, Types
<1>6. ASSUME NEW p \in Procs, Read(p) PROVE Inv'
  <2>0. /\ pc[p] = "read" /\ said' = said \cup {<<open[p], mem[cell[p]]>>} /\ open' = [open EXCEPT ![p] = NoCall]
        /\ pc' = [pc EXCEPT ![p] = "idle"] /\ UNCHANGED <<cell, mem, memo, todo>>
        /\ free' = (IF Way = "pool" THEN free \cup {cell[p]} ELSE free) /\ mem[cell[p]] = Alone[open[p]] /\ cell[p] \in Cells
    BY <1>6 DEF Read, Finish, Ended, Pooled, Inv, Holds, Own, Busy
  <2>3. Types' /\ Calling'
    BY <2>0 DEF Inv, Types, Calling, NoCall
  <2>4. Own'
    BY <2>0 DEF Inv, Types, Own, Busy
  <2>6. Holds'
    BY <2>0 DEF Inv, Types, Holds
  <2>7. Independent'
    BY <2>0 DEF Inv, Independent, Answer
  <2> QED BY <2>0, <2>3, <2>4, <2>6, <2>7 DEF Inv, Memo
<1>7. ASSUME NEW p \in Procs, Recall(p) PROVE Inv'
  <2>0. /\ pc[p] = "recall" /\ Way = "memo" /\ said' = said \cup {<<open[p], memo[open[p]]>>} /\ open' = [open EXCEPT ![p] = NoCall]
        /\ pc' = [pc EXCEPT ![p] = "idle"] /\ UNCHANGED <<cell, mem, free, memo, todo>> /\ memo[open[p]] = Alone[open[p]]
    BY <1>7 DEF Recall, Finish, Ended, Inv, Holds
  <2>3. Types' /\ Calling' /\ Own'
    BY <2>0 DEF Inv, Types, Calling, NoCall, Own, Busy
  <2>6. Holds'
    BY <2>0 DEF Inv, Types, Holds
  <2>7. Independent'
    BY <2>0 DEF Inv, Independent, Answer
  <2> QED BY <2>0, <2>3, <2>6, <2>7 DEF Inv, Memo
<1>8. CASE UNCHANGED vars
  BY <1>8 DEF vars, Inv, Types, Calling, Own, Holds, Memo, Independent, Busy
<1> QED BY <1>1, <1>2, <1>3, <1>4, <1>5, <1>6, <1>7, <1>8 DEF Next
=============================================================================
