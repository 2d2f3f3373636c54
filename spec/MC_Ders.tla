------------------------------- MODULE MC_Ders -------------------------------
(***************************************************************************)
(* The scheme for derivatives: for function number r (of the p+1 of the       *)
(* interval) row a of order k is made from the one of order k-1, and the      *)
(* k-th derivative is p!/(p-k)! times the sum of a[j] times the functions of  *)
(* degree p-k.  It equals the derivative of the function's polynomial.        *)
(***************************************************************************)
EXTENDS Spline, TLC, Json
CONSTANTS MaxP, MaxN, MaxK, Emit
VARIABLES n, p, U, u, s, r, k, a
vars == <<n, p, U, u, s, r, k, a>>
RECURSIVE Rising(_, _)
Rising(q, f) == IF q = 0 THEN {<<>>} ELSE UNION {{<<x>> \o t : t \in Rising(q - 1, x)} : x \in f..MaxK}
Big(x) == [i \in 1..Len(x) |-> BInt(x[i])]
V == Big(U)
T == BInt(u)
Init == /\ p \in 0..MaxP /\ n \in p..MaxN /\ U \in Rising(n + p + 2, 0)
        /\ Knotty(Big(U), n, p)
        /\ u \in U[p + 1]..U[n + 2]
        /\ s = SpanOf(Big(U), n, p, BInt(u))
        /\ r = 0 /\ k = 0 /\ a = <<QOne>>
\* knot difference under function i of degree q
Gap(i, q) == BSub(K(V, i + q), K(V, i))
I == s - p + r
\* entries outside of the interval's functions are left out (their function is 0)
Live(i, q) == i >= s - q /\ i <= s
Order == /\ k < p
         /\ LET q == p - k                    \* functions of degree q become q-1
                Old(j) == IF j \in 0..k THEN a[j + 1] ELSE QZero
                New(j) == IF ~Live(I + j, q - 1) THEN QZero
                          ELSE QDiv(QSub(Old(j), Old(j - 1)), <<Gap(I + j, q), BOne>>)
            IN a' = [j \in 1..(k + 2) |-> New(j - 1)]
         /\ k' = k + 1 /\ UNCHANGED <<n, p, U, u, s, r>>
Function == /\ k = p /\ r < p /\ r' = r + 1 /\ k' = 0 /\ a' = <<QOne>> /\ UNCHANGED <<n, p, U, u, s>>
Next == Order \/ Function
Spec == Init /\ [][Next]_vars
RECURSIVE Fall(_, _)
Fall(m, q) == IF q = 0 THEN 1 ELSE m * Fall(m - 1, q - 1)
Value == QMul(QInt(Fall(p, k)), QSum([j \in 1..(k + 1) |-> QMul(a[j], Basis(V, I + j - 1, p - k, T, s))]))
Scheme == QEq(Value, PolyAt(DeriveK(Poly(V, I, p, s), k), T))
Recurrence == QEq(DersRec(V, I, p, T, s, k), PolyAt(DeriveK(Poly(V, I, p, s), k), T))
Sums == (r = 0) => QEq(QSum(DersRow(V, p, T, s, k)), IF k = 0 THEN QOne ELSE QZero)
NonZero == (r = 0) => \E i \in 1..(p + 1) : DersRow(V, p, T, s, k)[i][1] # BZero
Output == (Emit /\ r = p /\ k = p) => PrintT("OUT|" \o ToJson([n |-> n, p |-> p, U |-> U, u |-> u]))
=============================================================================
