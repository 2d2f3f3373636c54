------------------------------ MODULE Proof_Span ------------------------------
(***************************************************************************)
(* Span, for every degree, every number of control points, every knot vector  *)
(* and every parameter: Inv is inductive, hence the interval returned is the   *)
(* one that contains the parameter, and Size is a natural number that every   *)
(* step of the search makes smaller, hence the search ends.                   *)
(***************************************************************************)
EXTENDS Span, TLAPS

LEMMA Facts ==
  ASSUME Inv, pc = "search"
  PROVE  /\ n \in Nat /\ p \in Nat /\ p =< n /\ u \in Int
         /\ low \in Int /\ high \in Int /\ mid \in Int
         /\ p =< low /\ low =< mid /\ mid < high /\ high =< n + 1
         /\ mid = (low + high) \div 2
         /\ K(low) \in Int /\ K(high) \in Int /\ K(mid) \in Int /\ K(mid + 1) \in Int
         /\ K(low) =< u /\ u < K(high)
         /\ K(p) =< u /\ u < K(n + 1) /\ K(p) \in Int /\ K(n + 1) \in Int
<1>1. /\ n \in Nat /\ p \in Nat /\ p =< n /\ u \in Int
      /\ low \in Int /\ high \in Int /\ mid \in Int
      /\ p =< low /\ low < high /\ high =< n + 1
      /\ mid = (low + high) \div 2
      /\ K(low) =< u /\ u < K(high) /\ K(p) =< u /\ u < K(n + 1)
  BY DEF Inv, Dom, Window
<1>2. low =< mid /\ mid < high
  BY <1>1
<1>3. \A i \in 0..(n + p + 1) : K(i) \in Int
  BY DEF Inv, Dom
<1>4. p \in 0..(n + p + 1) /\ n + 1 \in 0..(n + p + 1) /\ low \in 0..(n + p + 1) /\ high \in 0..(n + p + 1) /\ mid \in 0..(n + p + 1) /\ mid + 1 \in 0..(n + p + 1)
  BY <1>1, <1>2
<1> QED BY <1>1, <1>2, <1>3, <1>4

LEMMA Halves ==
  ASSUME Inv, Search, pc' = "search"
  PROVE  /\ low' \in Int /\ high' \in Int /\ mid' = (low' + high') \div 2
         /\ p =< low' /\ low' < high' /\ high' =< n + 1
         /\ K(low') =< u /\ u < K(high')
         /\ high' - low' < high - low
<1>0. pc = "search"
  BY DEF Search
<1>1. ~(u >= K(mid) /\ u < K(mid + 1)) /\ mid' = (low' + high') \div 2
  BY <1>0 DEF Search, Done
<1>2. CASE u < K(mid)
  <2>1. high' = mid /\ low' = low
    BY <1>0, <1>1, <1>2 DEF Search
  <2>2. low # mid
    <3> SUFFICES ASSUME low = mid PROVE FALSE
      OBVIOUS
    <3>1. K(low) = K(mid)
      OBVIOUS
    <3>2. K(low) \in Int /\ K(low) =< u /\ u \in Int
      BY <1>0, Facts
    <3> QED BY <3>1, <3>2, <1>2
  <2>3. low \in Int /\ mid \in Int /\ low =< mid /\ high \in Int /\ mid < high /\ p \in Int /\ p =< low /\ high =< n + 1 /\ n \in Int /\ K(low) =< u
    BY <1>0, Facts
  <2> QED BY <1>1, <1>2, <2>1, <2>2, <2>3
<1>3. CASE ~(u < K(mid))
  <2>1. high' = high /\ low' = mid
    BY <1>0, <1>1, <1>3 DEF Search
  <2>2. u >= K(mid + 1) /\ u >= K(mid)
    <3>1. K(mid) \in Int /\ K(mid + 1) \in Int /\ u \in Int
      BY <1>0, Facts
    <3> QED BY <3>1, <1>1, <1>3
  <2>3. mid + 1 # high
    <3> SUFFICES ASSUME mid + 1 = high PROVE FALSE
      OBVIOUS
    <3>1. K(mid + 1) = K(high)
      OBVIOUS
    <3>2. K(high) \in Int /\ u < K(high) /\ u \in Int
      BY <1>0, Facts
    <3> QED BY <3>1, <3>2, <2>2
  <2>4. low \in Int /\ mid \in Int /\ low =< mid /\ high \in Int /\ mid < high /\ p \in Int /\ p =< low /\ high =< n + 1 /\ n \in Int /\ u < K(high) /\ u \in Int /\ mid = (low + high) \div 2 /\ K(mid) \in Int
    BY <1>0, Facts
  <2>5. low < mid
    <3>1. mid = (low + high) \div 2 /\ low \in Int /\ high \in Int /\ mid \in Int /\ mid < high /\ mid + 1 # high
      BY <2>3, <2>4
    <3> HIDE DEF K
    <3> QED BY ONLY <3>1
  <2>6. K(low') =< u /\ u < K(high')
    BY <2>1, <2>2, <2>4
  <2> QED BY <1>1, <2>1, <2>4, <2>5, <2>6
<1> QED BY <1>2, <1>3

THEOREM Inductive == Inv /\ [Next]_vars => Inv'
<1> SUFFICES ASSUME Inv, [Next]_vars PROVE Inv'
  OBVIOUS
<1>1. CASE Start
  <2>1. UNCHANGED <<n, p, U, u>> /\ pc = "start"
    BY <1>1 DEF Start
  <2>2. Dom'
    BY <2>1 DEF Inv, Dom, K
  <2>3. n \in Nat /\ p \in Nat /\ p =< n /\ u \in Int /\ K(p) < K(p + 1) /\ K(n) < K(n + 1) /\ K(p) \in Int /\ K(n + 1) \in Int
    BY DEF Inv, Dom
  <2>4. CASE u >= K(n + 1)
    BY <1>1, <2>1, <2>2, <2>3, <2>4 DEF Inv, Start, Done, Window, Found, K
  <2>5. CASE ~(u >= K(n + 1)) /\ u < K(p)
    BY <1>1, <2>1, <2>2, <2>3, <2>5 DEF Inv, Start, Done, Window, Found, K
  <2>6. CASE ~(u >= K(n + 1)) /\ ~(u < K(p))
    <3>1. low' = p /\ high' = n + 1 /\ mid' = (p + n + 1) \div 2 /\ pc' = "search"
      BY <1>1, <2>6 DEF Start
    <3>2. K(p) =< u /\ u < K(n + 1)
      BY <2>3, <2>6
    <3>3. (K(low))' = K(p) /\ (K(high))' = K(n + 1)
      BY <3>1, <2>1 DEF K
    <3>4. Window'
      <4>1. p' =< low' /\ low' < high' /\ high' =< n' + 1 /\ mid' = (low' + high') \div 2
        BY <2>1, <2>3, <3>1
      <4>2. (K(low) =< u /\ u < K(high))'
        BY <2>1, <3>2, <3>3
      <4>3. (K(p) =< u /\ u < K(n + 1))'
        BY <2>1, <3>2 DEF K
      <4> QED BY <4>1, <4>2, <4>3 DEF Window
    <3> QED BY <2>2, <2>3, <3>1, <3>4 DEF Inv, Found
  <2> QED BY <2>4, <2>5, <2>6
<1>2. CASE Search
  <2>1. UNCHANGED <<n, p, U, u>> /\ pc = "search"
    BY <1>2 DEF Search
  <2>2. Dom'
    BY <2>1 DEF Inv, Dom, K
  <2>3. CASE u >= K(mid) /\ u < K(mid + 1)
    <3>1. pc' = "done" /\ mid' = mid /\ low' = low /\ high' = high
      BY <2>1, <2>3, <1>2 DEF Search, Done
    <3>2. mid \in p..n /\ K(mid) < K(mid + 1) /\ mid \in Int
      BY <2>1, <2>3, Facts
    <3>3. Found'
      <4>1. K(p) =< u /\ u < K(n + 1) /\ K(p) \in Int /\ K(n + 1) \in Int /\ u \in Int
        BY <2>1, Facts
      <4>2. ~(u >= K(n + 1)) /\ ~(u < K(p)) /\ K(mid) =< u /\ u < K(mid + 1)
        <5>1. K(mid) \in Int
          BY <2>1, Facts
        <5> QED BY <4>1, <2>3, <5>1
      <4>3. /\ (K(n + 1))' = K(n + 1) /\ (K(p))' = K(p) /\ u' = u /\ mid' = mid
            /\ p' = p /\ n' = n /\ (K(mid))' = K(mid) /\ (K(mid + 1))' = K(mid + 1)
        BY <2>1, <3>1 DEF K
      <4> QED BY <3>2, <4>2, <4>3 DEF Found
    <3> QED BY <2>2, <3>1, <3>3 DEF Inv, Window
  <2>4. CASE ~(u >= K(mid) /\ u < K(mid + 1))
    <3>1. pc' = "search"
      BY <2>1, <2>4, <1>2 DEF Search
    <3>2. /\ low' \in Int /\ high' \in Int /\ mid' = (low' + high') \div 2
          /\ p =< low' /\ low' < high' /\ high' =< n + 1
          /\ K(low') =< u /\ u < K(high')
      BY <3>1, <1>2, Halves
    <3>4. K(p) =< u /\ u < K(n + 1)
      BY <2>1, Facts
    <3>3. Window'
      BY <2>1, <3>2, <3>4 DEF Window, K
    <3> QED BY <2>2, <3>1, <3>2, <3>3 DEF Inv, Found
  <2> QED BY <2>3, <2>4
<1>3. CASE UNCHANGED vars
  BY <1>3 DEF Inv, vars, Dom, Window, Found, K
<1> QED BY <1>1, <1>2, <1>3 DEF Next

THEOREM Ends == ASSUME Inv, Search, pc' = "search" PROVE Size \in Nat /\ Size' \in Nat /\ Size' < Size
  BY Halves, Facts DEF Size, Search
=============================================================================
