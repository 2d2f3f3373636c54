------------------------------ MODULE MC_Basis ------------------------------
(***************************************************************************)
(* The triangular scheme for the basis functions of one interval (row N,      *)
(* carried value), a step per entry, equals the recursive definition row by   *)
(* row; and de Boor's corner cutting of a control polygon equals the sum of   *)
(* basis functions times control points.                                     *)
(***************************************************************************)
EXTENDS Spline, TLC, Json
CONSTANTS MaxP, MaxN, MaxK, Emit
VARIABLES n, p, U, u, s, row, j, r, saved, d
vars == <<n, p, U, u, s, row, j, r, saved, d>>
RECURSIVE Rising(_, _)
Rising(k, f) == IF k = 0 THEN {<<>>} ELSE UNION {{<<x>> \o t : t \in Rising(k - 1, x)} : x \in f..MaxK}
Big(x) == [i \in 1..Len(x) |-> BInt(2 * x[i])]
V == Big(U)                      \* knots and parameter count halves
T == BInt(u)
\* control values of no particular shape
Ctrl == [i \in 1..(n + 1) |-> QInt(((i * i * 7 + 3 * i) % 11) - 4)]
Init == /\ p \in 0..MaxP /\ n \in p..MaxN /\ U \in Rising(n + p + 2, 0)
        /\ Knotty([i \in 1..Len(U) |-> BInt(U[i])], n, p)
        /\ u \in (2 * U[p + 1])..(2 * U[n + 2])
        /\ s = SpanOf(Big(U), n, p, BInt(u))
        /\ row = [i \in 0..p |-> IF i = 0 THEN QOne ELSE QZero]
        /\ j = 1 /\ r = 0 /\ saved = QZero
        /\ d = [i \in 0..p |-> Ctrl[s - p + i + 1]]
Left(k) == BSub(T, K(V, s + 1 - k))
Right(k) == BSub(K(V, s + k), T)
Entry == /\ j <= p /\ r < j
         /\ LET den == BAdd(Right(r + 1), Left(j - r))
                temp == QDiv(row[r], <<den, BOne>>)
            IN /\ row' = [row EXCEPT ![r] = QAdd(saved, QMul(<<Right(r + 1), BOne>>, temp))]
               /\ saved' = QMul(<<Left(j - r), BOne>>, temp)
         /\ r' = r + 1 /\ UNCHANGED <<n, p, U, u, s, j, d>>
\* corner cutting: d[i] between d[i-1] and d[i], from above
Cut(i) == LET lo == K(V, i + s - p)  hi == K(V, i + 1 + s - j)
              a == QDiv(<<BSub(T, lo), BOne>>, <<BSub(hi, lo), BOne>>)
          IN QAdd(QMul(QSub(QOne, a), d[i - 1]), QMul(a, d[i]))
Column == /\ j <= p /\ r = j
          /\ row' = [row EXCEPT ![j] = saved] /\ saved' = QZero
          /\ d' = [i \in 0..p |-> IF i >= j THEN Cut(i) ELSE d[i]]
          /\ j' = j + 1 /\ r' = 0 /\ UNCHANGED <<n, p, U, u, s>>
Next == Entry \/ Column
Spec == Init /\ [][Next]_vars

Divides == (j <= p /\ r < j) => BSgn(BAdd(Right(r + 1), Left(j - r))) > 0
RowOk == r = 0 => \A i \in 0..(j - 1) : QEq(row[i], Basis(V, s - (j - 1) + i, j - 1, T, s))
Whole == r = 0 => QEq(QSum([i \in 1..j |-> row[i - 1]]), QOne) /\ \A i \in 0..(j - 1) : BSgn(row[i][1]) >= 0
\* a function vanishes unless the parameter is within its p+1 intervals; the
\* polynomial on the interval has the same value
Fin == j = p + 1
Same == Fin => \A i \in 0..p : QEq(row[i], PolyAt(Poly(V, s - p + i, p, s), T))
Cutting == Fin => QEq(d[p], CurveAt(V, n, p, Ctrl, T))
Constant == Fin => QEq(CurveAt(V, n, p, [i \in 1..(n + 1) |-> QInt(5)], T), QInt(5))
\* a control point whose function is not among the p+1 of the interval has no say
Local == Fin => \A i \in 0..n : (i < s - p \/ i > s) =>
           QEq(CurveAt(V, n, p, [Ctrl EXCEPT ![i + 1] = QInt(99)], T), CurveAt(V, n, p, Ctrl, T))
\* the curve starts and ends at control points when the end knots repeat
Ends == Fin => /\ (U[1] = U[p + 1] /\ u = 2 * U[1]) => QEq(CurveAt(V, n, p, Ctrl, T), Ctrl[1])
               /\ (U[n + 2] = U[n + p + 2] /\ u = 2 * U[n + 2]) => QEq(CurveAt(V, n, p, Ctrl, T), Ctrl[n + 1])
Output == (Emit /\ Fin) => PrintT("OUT|" \o ToJson([n |-> n, p |-> p, U |-> U, u |-> u]))
=============================================================================
