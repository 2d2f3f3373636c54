-------------------------------- MODULE Vec --------------------------------
(***************************************************************************)
(* Vector registers and the operations on them.  All numbers are exact        *)
(* integers counting 1/One (One a power of two), so a recorded floating       *)
(* point number is exact.  A step  [op, i, j, f, dst]  works on registers i   *)
(* and j and the number f; an in-place operation changes register i, a pure   *)
(* one returns a vector (which may then be put into register dst) or a        *)
(* number.  Vec gives the exact result; Fits says which floating point         *)
(* results are accepted: the exact one up to the rounding of its terms.       *)
(***************************************************************************)
EXTENDS BigNum, FiniteSets, TLC

InPlace == {"abs", "scale", "scale2", "add", "sub", "normalize"}
ToVector == {"absOf", "scaled", "addOf", "subOf", "cross", "create", "interpolateAt", "interpolate", "normalizeOf"}
ToNumber == {"dot", "norm2", "squaredMagnitude", "squaredDistance", "det2", "norm", "magnitude", "distance"}
ToTruth == {"isUnit"}

M(a, b) == BMul(a, b)
\* Each component of a result is a sum of products (terms); all terms are scaled
\* by One^k.  V(op, a, b, f, g, one) = <<k, <<terms of x>>, <<terms of y>>, ...>>
Minus(t) == BNeg(t)
CrossTerms(a, b, x, y) == <<M(a[x], b[y]), Minus(M(a[y], b[x]))>>
Terms(op, a, b, f, g, one) ==
  LET Each(T(_)) == <<T(1), T(2), T(3)>>
      Abs1(x) == <<BAbs(a[x])>>
      Scale1(x) == <<M(f, a[x])>>
      Scale2(x) == <<M(g, M(f, a[x]))>>
      Add1(x) == <<a[x], b[x]>>
      Sub1(x) == <<a[x], Minus(b[x])>>
      ToB(x) == <<M(a[x], f), M(b[x], one), Minus(M(b[x], f))>>       \* a f + b (1-f)
      ToA(x) == <<M(a[x], one), Minus(M(a[x], f)), M(b[x], f)>>       \* a (1-f) + b f
      DotOf(u, v) == <<M(u[1], v[1]), M(u[2], v[2]), M(u[3], v[3])>>
  IN CASE op \in {"abs", "absOf"} -> <<0, Each(Abs1)>>
       [] op \in {"scale", "scaled"} -> <<1, Each(Scale1)>>
       [] op = "scale2" -> <<2, Each(Scale2)>>
       [] op \in {"add", "addOf"} -> <<0, Each(Add1)>>
       [] op \in {"sub", "subOf", "create"} -> <<0, Each(Sub1)>>
       [] op = "cross" -> <<1, <<CrossTerms(a, b, 2, 3), CrossTerms(a, b, 3, 1), CrossTerms(a, b, 1, 2)>> >>
       [] op = "interpolateAt" -> <<1, Each(ToB)>>
       [] op = "interpolate" -> <<1, Each(ToA)>>
       [] op = "dot" -> <<1, <<DotOf(a, b)>> >>
       [] op \in {"norm2", "squaredMagnitude"} -> <<1, <<DotOf(a, a)>> >>
       [] op = "squaredDistance" -> <<1, <<LET d == BVSub(a, b) IN DotOf(d, d)>> >>
       [] op = "det2" -> <<1, <<CrossTerms(a, b, 1, 2)>> >>

\* exact result, scaled by One^(k+1)
Exactly(op, a, b, f, g, one) == LET t == Terms(op, a, b, f, g, one) IN [x \in 1..Len(t[2]) |-> BSum(t[2][x])]
AbsSum(s) == BSum([i \in 1..Len(s) |-> BAbs(s[i])])
RECURSIVE OnePow(_, _)
OnePow(one, k) == IF k = 0 THEN BOne ELSE M(one, OnePow(one, k - 1))
\* res is the result up to 2^-bits of its terms
Fits(op, a, b, f, g, one, res, bits) ==
  LET t == TLCEval(Terms(op, a, b, f, g, one))  s == OnePow(one, t[1])
  IN Len(res) = Len(t[2]) /\ \A x \in 1..Len(res) :
       BLeq(M(BPow2(bits), BAbs(BSub(M(res[x], s), BSum(t[2][x])))), AbsSum(t[2][x]))

\* -------------------------------------------------------------- lengths
Dot(u, v) == BDot(u, v)
Len2(v) == BDot(v, v)                                    \* One^2
Zero3 == <<BZero, BZero, BZero>>
\* x (non-negative) is the root of s up to 2^-bits; s counts 1/One^2
Root(x, s, bits) == BSgn(x) >= 0 /\ BLeq(M(BPow2(bits), BAbs(BSub(M(x, x), s))), s)
\* w is v over its length: each component squared times the squared length of v
\* is the square of v's component, with its sign
Unit(v, w, one, bits) ==
  IF v = Zero3 THEN w = Zero3
  ELSE \A x \in 1..3 : LET l == M(M(w[x], w[x]), Len2(v))  r == M(M(one, one), M(v[x], v[x]))
                       IN BSgn(w[x]) = BSgn(v[x]) /\ BLeq(M(BPow2(bits), BAbs(BSub(l, r))), r)
\* squared length within 5e-14 of one: "yes", "no", or "edge" within rounding
UnitTest(v, one) ==
  LET off == M(BInt(1000000000), M(BInt(1000000), BAbs(BSub(Len2(v), M(one, one)))))    \* One^2 / 10^15
      tol(k) == M(BInt(k), M(one, one))
  IN IF BLeq(off, tol(49)) THEN "yes" ELSE IF BLeq(tol(51), off) THEN "no" ELSE "edge"
=============================================================================
