------------------------------ MODULE Proof_Scan ------------------------------
(* Scan ends with a point of least distance, however many points there are.   *)
EXTENDS Scan, TLAPS
THEOREM Inductive == Typed /\ Least /\ [Step]_vars => Typed' /\ Least'
<1> SUFFICES ASSUME Typed, Least, [Step]_vars PROVE Typed' /\ Least'
  OBVIOUS
<1>1. CASE Step
  <2>1. i < len /\ i' = i + 1 /\ len' = len /\ D' = D /\ best' \in {best, i + 1}
    BY <1>1 DEF Step
  <2>2. Typed'
    BY <2>1 DEF Typed
  <2>3. D[i + 1] \in Int /\ D[best] \in Int /\ \A k \in 1..i : D[k] \in Int
    BY <2>1 DEF Typed
  <2>4. D[best'] =< D[best] /\ D[best'] =< D[i + 1] /\ D[best'] \in Int
    BY <1>1, <2>3 DEF Step
  <2>5. ASSUME NEW k \in 1..(i + 1) PROVE D[best'] =< D[k]
    <3>1. CASE k = i + 1
      BY <2>4, <3>1
    <3>2. CASE k # i + 1
      <4>1. k \in 1..i
        BY <3>2 DEF Typed
      <4>2. D[best] =< D[k] /\ D[k] \in Int
        BY <4>1, <2>3 DEF Least
      <4> QED BY <4>2, <2>3, <2>4
    <3> QED BY <3>1, <3>2
  <2> QED BY <2>1, <2>2, <2>5 DEF Least
<1>2. CASE UNCHANGED vars
  BY <1>2 DEF vars, Typed, Least
<1> QED BY <1>1, <1>2
THEOREM First == Begin /\ (\A k \in 1..len : D[k] \in Int) => Typed /\ Least
  BY DEF Begin, Typed, Least
THEOREM InTheEnd == Typed /\ Least /\ i = len => best \in 1..len /\ \A k \in 1..len : D[best] =< D[k]
  BY DEF Typed, Least
=============================================================================
