---------------------------- MODULE Proof_Resources ----------------------------
(* MC_Resources with a reader that is told to stop and a file that is closed    *)
(* whichever way a call ends: any number of items, any room, any number of      *)
(* calls, failures anywhere, and nothing is held between calls.                 *)
EXTENDS MC_Resources, TLAPS
ASSUME Sizes == Items \in Nat /\ Room \in Nat /\ Rounds \in Nat
Inv == /\ pc \in {"idle", "take", "fail"} /\ done \in BOOLEAN /\ told \in BOOLEAN
       /\ pc = "idle" => open = 0 /\ runs = 0
       /\ pc # "idle" => open = 1 /\ runs = (IF done THEN 0 ELSE 1)
       /\ pc # "idle" /\ Way = "inline" => done
THEOREM First == ASSUME Way \in {"deferred", "inline"} PROVE Init => Inv
  BY DEF Init, Inv
THEOREM Inductive == ASSUME Way \in {"deferred", "inline"} PROVE Inv /\ [Next]_vars => Inv'
<1> SUFFICES ASSUME Inv, [Next]_vars PROVE Inv'
  OBVIOUS
<1>1. CASE Start
  BY <1>1 DEF Start, Inv, Threaded
<1>2. CASE Read
  BY <1>2 DEF Read, Inv, Threaded
<1>3. CASE Stops
  BY <1>3 DEF Stops, Inv, Threaded
<1>4. CASE Take
  BY <1>4 DEF Take, Inv, Threaded
<1>5. CASE Tell
  BY <1>5 DEF Tell, Inv, Threaded
<1>6. CASE Return
  BY <1>6 DEF Return, Ready, Inv, Threaded
<1>7. CASE UNCHANGED vars
  BY <1>7 DEF vars, Inv
<1> QED BY <1>1, <1>2, <1>3, <1>4, <1>5, <1>6, <1>7 DEF Next
THEOREM Gone == Inv => Clean
  BY DEF Inv, Clean, Gives, Holding
=============================================================================
