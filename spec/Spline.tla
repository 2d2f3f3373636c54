------------------------------- MODULE Spline -------------------------------
(***************************************************************************)
(* B-spline basis functions by their recursive definition, over exact        *)
(* rationals <<numerator, positive denominator>>.  A knot vector is a        *)
(* sequence of exact integers; K(U, i) is knot number i, counted from 0.      *)
(* n: last control point, p: degree, so Len(U) = n + p + 2.  s: the number    *)
(* of the knot interval the parameter belongs to.                            *)
(* Parameters that are not whole are handled by scaling: the basis does not   *)
(* change when knots and parameter are multiplied by the same number.         *)
(***************************************************************************)
EXTENDS BigNum, FiniteSets

K(U, i) == U[i + 1]

\* ----------------------------------------------------------- rationals
QInt(k) == <<BInt(k), BOne>>
QZero == <<BZero, BOne>>
QOne == <<BOne, BOne>>
QAdd(a, b) == IF a[1] = BZero THEN b ELSE IF b[1] = BZero THEN a
              ELSE IF a[2] = b[2] THEN <<BAdd(a[1], b[1]), a[2]>>
              ELSE <<BAdd(BMul(a[1], b[2]), BMul(b[1], a[2])), BMul(a[2], b[2])>>
QNeg(a) == <<BNeg(a[1]), a[2]>>
QSub(a, b) == QAdd(a, QNeg(b))
QMul(a, b) == IF a[1] = BZero \/ b[1] = BZero THEN QZero ELSE <<BMul(a[1], b[1]), BMul(a[2], b[2])>>
QDiv(a, b) == IF BSgn(b[1]) > 0 THEN QMul(a, <<b[2], b[1]>>) ELSE QMul(a, <<BNeg(b[2]), BNeg(b[1])>>)
QEq(a, b) == BMul(a[1], b[2]) = BMul(b[1], a[2])
QLeq(a, b) == BLeq(BMul(a[1], b[2]), BMul(b[1], a[2]))
QAbs(a) == <<BAbs(a[1]), a[2]>>
RECURSIVE QSum(_)
QSum(s) == IF s = <<>> THEN QZero ELSE QAdd(Head(s), QSum(Tail(s)))
QMax(s) == LET RECURSIVE M(_) M(i) == IF i = 1 THEN s[1] ELSE LET m == M(i - 1) IN IF QLeq(m, s[i]) THEN s[i] ELSE m IN M(Len(s))

\* --------------------------------------------------------------- knots
Knotty(U, n, p) ==
  /\ Len(U) = n + p + 2 /\ n >= p /\ p >= 0
  /\ \A i \in 0..(n + p) : BLeq(K(U, i), K(U, i + 1))
  /\ \A i \in 0..n : K(U, i) # K(U, i + p + 1)             \* at most p+1 times
  /\ K(U, p) # K(U, p + 1) /\ K(U, n) # K(U, n + 1)

\* the interval that contains u; both ends of the world go to the last and first
SpanOf(U, n, p, u) ==
  IF BLeq(K(U, n + 1), u) THEN n ELSE IF BLess(u, K(U, p)) THEN p
  ELSE CHOOSE s \in p..n : BLeq(K(U, s), u) /\ BLess(u, K(U, s + 1))
InRange(U, n, p, u) == BLeq(K(U, p), u) /\ BLeq(u, K(U, n + 1))

\* ------------------------------------------------------ basis functions
LOCAL Part(a, b, q) == IF a = BZero \/ q[1] = BZero THEN QZero ELSE <<BMul(a, q[1]), BMul(b, q[2])>>
RECURSIVE Basis(_, _, _, _, _)
Basis(U, i, p, u, s) ==
  IF s < i \/ s > i + p THEN QZero
  ELSE IF p = 0 THEN QOne
  ELSE QAdd(Part(BSub(u, K(U, i)), BSub(K(U, i + p), K(U, i)), Basis(U, i, p - 1, u, s)),
            Part(BSub(K(U, i + p + 1), u), BSub(K(U, i + p + 1), K(U, i + 1)), Basis(U, i + 1, p - 1, u, s)))
\* the p+1 functions that do not vanish on interval s
BasisRow(U, p, u, s) == [r \in 1..(p + 1) |-> Basis(U, s - p + r - 1, p, u, s)]

\* ------------------ the same functions as polynomials on interval s:
\* coefficients, lowest first, over one positive denominator
PolyZero == [c |-> <<>>, d |-> BOne]
LOCAL At(c, i) == IF i \in 1..Len(c) THEN c[i] ELSE BZero
PolyAdd(x, y) == IF x.c = <<>> THEN y ELSE IF y.c = <<>> THEN x
  ELSE [c |-> [i \in 1..(IF Len(x.c) > Len(y.c) THEN Len(x.c) ELSE Len(y.c)) |-> BAdd(BMul(At(x.c, i), y.d), BMul(At(y.c, i), x.d))],
        d |-> BMul(x.d, y.d)]
\* (a + b t) * x / e
PolyLin(a, b, e, x) == IF x.c = <<>> THEN x
  ELSE [c |-> [i \in 1..(Len(x.c) + 1) |-> BAdd(BMul(a, At(x.c, i)), BMul(b, At(x.c, i - 1)))], d |-> BMul(x.d, e)]
RECURSIVE Poly(_, _, _, _)
Poly(U, i, p, s) ==
  IF s < i \/ s > i + p THEN PolyZero
  ELSE IF p = 0 THEN [c |-> <<BOne>>, d |-> BOne]
  ELSE LET one == BSub(K(U, i + p), K(U, i))  two == BSub(K(U, i + p + 1), K(U, i + 1))
           x == Poly(U, i, p - 1, s)  y == Poly(U, i + 1, p - 1, s)
       IN PolyAdd(PolyLin(BNeg(K(U, i)), BOne, one, x), PolyLin(K(U, i + p + 1), BInt(-1), two, y))
Derive(x) == IF Len(x.c) <= 1 THEN PolyZero ELSE [c |-> [i \in 1..(Len(x.c) - 1) |-> BMul(BInt(i), x.c[i + 1])], d |-> x.d]
RECURSIVE DeriveK(_, _)
DeriveK(x, k) == IF k = 0 THEN x ELSE DeriveK(Derive(x), k - 1)
RECURSIVE Horner(_, _, _)
Horner(c, i, u) == IF i > Len(c) THEN BZero ELSE BAdd(c[i], BMul(u, Horner(c, i + 1, u)))
PolyAt(x, u) == IF x.c = <<>> THEN QZero ELSE <<Horner(x.c, 1, u), x.d>>
\* row k of the table of derivatives
DersRow(U, p, u, s, k) == [r \in 1..(p + 1) |-> PolyAt(DeriveK(Poly(U, s - p + r - 1, p, s), k), u)]

\* the derivatives by the usual recurrence (MC_Ders: the same)
RECURSIVE DersRec(_, _, _, _, _, _)
DersRec(U, i, p, u, s, k) ==
  IF k = 0 THEN Basis(U, i, p, u, s)
  ELSE IF p = 0 THEN QZero
  ELSE LET x == DersRec(U, i, p - 1, u, s, k - 1)  y == DersRec(U, i + 1, p - 1, u, s, k - 1)
           P1 == <<BInt(p), BOne>>
           F(q, d) == IF q[1] = BZero THEN QZero ELSE QMul(P1, <<q[1], BMul(q[2], d)>>)
       IN QSub(F(x, BSub(K(U, i + p), K(U, i))), F(y, BSub(K(U, i + p + 1), K(U, i + 1))))

\* ------------------------------------------------------------- curves
\* one coordinate of a point of the curve with control values c[1..n+1]
CurveAt(U, n, p, c, u) ==
  LET s == SpanOf(U, n, p, u) IN QSum([i \in 1..(n + 1) |-> QMul(Basis(U, i - 1, p, u, s), c[i])])
=============================================================================
