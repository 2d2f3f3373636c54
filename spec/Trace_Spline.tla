---------------------------- MODULE Trace_Spline ----------------------------
(***************************************************************************)
(* Recorded results of the nurbs code (N01-N03), judged by Spline.  Knots and *)
(* parameter are exact integers over one power of two; a value is recorded    *)
(* as <<numerator, denominator>>, the denominator a power of two.             *)
(***************************************************************************)
EXTENDS TraceLoop, Spline

\* |a - b| <= size / 2^bits
Close(a, b, size, bits) ==
  LET x == QSub(a, b) IN QLeq(QMul(<<BPow2(bits), BOne>>, QAbs(x)), size)
Given(r) == Knotty(r.U, r.n, r.p)

WhySpan(r) ==
  IF r.status # "ok" THEN {r.status}
  ELSE Need("record", Given(r)) \cup Need("not the interval of the parameter", r.s = SpanOf(r.U, r.n, r.p, r.u))
       \cup Need("the knots were changed", r.same)
WhyBasis(r) ==
  IF r.status # "ok" THEN {r.status}
  ELSE LET s == SpanOf(r.U, r.n, r.p, r.u)  b == TLCEval(BasisRow(r.U, r.p, r.u, s))
       IN Need("record", Given(r) /\ InRange(r.U, r.n, r.p, r.u) /\ r.s = s)
          \cup (IF Len(r.N) # r.p + 1 THEN {"not one value per function"}
                ELSE Need("not the basis functions", \A i \in 1..(r.p + 1) : Close(r.N[i], b[i], QOne, 44))
                     \cup Need("a negative basis function", \A i \in 1..(r.p + 1) : BSgn(r.N[i][1]) >= 0)
                     \cup Need("the basis functions do not sum to one", Close(QSum(r.N), QOne, QOne, 44)))
          \cup Need("the knots were changed", r.same)
WhyDers(r) ==
  IF r.status # "ok" THEN {r.status}
  ELSE LET s == SpanOf(r.U, r.n, r.p, r.u)
       IN Need("record", Given(r) /\ InRange(r.U, r.n, r.p, r.u) /\ r.s = s)
          \cup (IF Len(r.D) < r.k + 1 THEN {"a row is missing"}
                ELSE UNION {LET e == TLCEval(DersRow(r.U, r.p, r.u, s, k))
                                m == QMax([i \in 1..(r.p + 1) |-> QAbs(e[i])])
                            IN IF Len(r.D[k + 1]) # r.p + 1 THEN {"not one value per function"}
                               ELSE Need("row " \o ToString(k) \o " is not that derivative",
                                         \A i \in 1..(r.p + 1) : Close(r.D[k + 1][i], e[i], m, 30))
                                    \cup Need("a row does not sum to one or zero",
                                         Close(QSum(r.D[k + 1]), IF k = 0 THEN QOne ELSE QZero, m, 28))
                            : k \in 0..r.k})
          \cup Need("the knots were changed", r.same)
\* r.P: control points, r.C: the point; r.size: bound of the control coordinates
WhyCurve(r) ==
  IF r.status # "ok" THEN {r.status}
  ELSE LET s == SpanOf(r.U, r.n, r.p, r.u)  b == TLCEval(BasisRow(r.U, r.p, r.u, s))
       IN Need("record", Given(r) /\ InRange(r.U, r.n, r.p, r.u) /\ Len(r.P) = r.n + 1)
          \cup Need("not the point of the curve",
                 \A x \in 1..3 : LET c == [i \in 1..(r.n + 1) |-> <<r.P[i][x], r.den>>]
                                     local == QSum([i \in 1..(r.p + 1) |-> QMul(b[i], c[s - r.p + i])])
                                     size == QMax([i \in 1..(r.p + 1) |-> QAbs(c[s - r.p + i])])
                                 IN Close(r.C[x], local, size, 44))
          \cup Need("the control points or knots were changed", r.same)
=============================================================================
