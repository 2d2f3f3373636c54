------------------------------- MODULE BigNum -------------------------------
(***************************************************************************)
(* Exact integers of any size.  A number is a sequence of integers         *)
(*   <<sign, l1, l2, ..., lk>>     sign \in {-1,0,1},  0 <= li < 2^15,     *)
(* least significant limb first, no leading (last) zero limb; zero is <<0>>.*)
(* The definitions below are complete TLA+.  TLC replaces the operators    *)
(* whose names start with B by java.math.BigInteger arithmetic             *)
(* (java/BigNumOverrides.java); MC_BigNum.tla checks that both agree.      *)
(***************************************************************************)
EXTENDS Integers, Sequences

LOCAL Base == 32768

\* ------------------------------------------------------------ pure TLA+ (P*)
RECURSIVE PNat(_)
PNat(n) == IF n = 0 THEN <<>> ELSE <<n % Base>> \o PNat(n \div Base)

PInt(n) == IF n = 0 THEN <<0>>
           ELSE IF n > 0 THEN <<1>> \o PNat(n) ELSE <<-1>> \o PNat(-n)

RECURSIVE PTrim(_)
PTrim(m) == IF m # <<>> /\ m[Len(m)] = 0 THEN PTrim(SubSeq(m, 1, Len(m)-1)) ELSE m

LOCAL PLimb(m, i) == IF i <= Len(m) THEN m[i] ELSE 0

RECURSIVE PAddM(_, _, _, _)              \* magnitudes, from limb i, with carry
PAddM(a, b, i, c) ==
  IF i > Len(a) /\ i > Len(b) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET s == PLimb(a,i) + PLimb(b,i) + c
       IN <<s % Base>> \o PAddM(a, b, i+1, s \div Base)

RECURSIVE PSubM(_, _, _, _)              \* a >= b
PSubM(a, b, i, c) ==
  IF i > Len(a) THEN <<>>
  ELSE LET s == a[i] - PLimb(b,i) - c
       IN <<s % Base>> \o PSubM(a, b, i+1, IF s < 0 THEN 1 ELSE 0)

RECURSIVE PCmpM(_, _, _)                 \* from limb i downwards
PCmpM(a, b, i) == IF i = 0 THEN 0
                  ELSE IF PLimb(a,i) < PLimb(b,i) THEN -1
                  ELSE IF PLimb(a,i) > PLimb(b,i) THEN 1
                  ELSE PCmpM(a, b, i-1)
LOCAL Longer(a, b) == IF Len(a) >= Len(b) THEN Len(a) ELSE Len(b)

RECURSIVE PMulLimb(_, _, _, _)
PMulLimb(a, d, i, c) ==
  IF i > Len(a) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET s == a[i] * d + c IN <<s % Base>> \o PMulLimb(a, d, i+1, s \div Base)

RECURSIVE PMulM(_, _, _)
PMulM(a, b, j) ==
  IF j > Len(b) THEN <<>>
  ELSE PAddM(PMulLimb(a, b[j], 1, 0), <<0>> \o PMulM(a, b, j+1), 1, 0)

LOCAL Mag(a) == Tail(a)
LOCAL Mk(s, m) == LET t == PTrim(m) IN IF t = <<>> THEN <<0>> ELSE <<s>> \o t

PNeg(a) == IF a[1] = 0 THEN a ELSE <<-a[1]>> \o Mag(a)
PAdd(a, b) ==
  IF a[1] = 0 THEN b ELSE IF b[1] = 0 THEN a
  ELSE IF a[1] = b[1] THEN Mk(a[1], PAddM(Mag(a), Mag(b), 1, 0))
  ELSE LET c == PCmpM(Mag(a), Mag(b), Longer(a, b))
       IN IF c = 0 THEN <<0>>
          ELSE IF c > 0 THEN Mk(a[1], PSubM(Mag(a), Mag(b), 1, 0))
          ELSE Mk(b[1], PSubM(Mag(b), Mag(a), 1, 0))
PSub(a, b) == PAdd(a, PNeg(b))
PMul(a, b) == IF a[1] = 0 \/ b[1] = 0 THEN <<0>>
              ELSE Mk(a[1] * b[1], PMulM(Mag(a), Mag(b), 1))
PCmp(a, b) == PSub(a, b)[1]
RECURSIVE PPow2(_)
PPow2(k) == IF k < 15 THEN <<1, 2^k>> ELSE <<1, 0>> \o Tail(PPow2(k - 15))
RECURSIVE PDot(_, _)
PDot(u, v) == IF u = <<>> THEN <<0>>
              ELSE PAdd(PMul(Head(u), Head(v)), PDot(Tail(u), Tail(v)))

RECURSIVE PSum(_)
PSum(s) == IF s = <<>> THEN <<0>> ELSE PAdd(Head(s), PSum(Tail(s)))
PVSub(u, v) == [i \in 1..Len(u) |-> PSub(u[i], v[i])]
LOCAL PMinor(m, j) == [i \in 1..(Len(m)-1) |-> [k \in 1..(Len(m)-1) |-> m[i+1][IF k < j THEN k ELSE k+1]]]
RECURSIVE PDet(_)                        \* determinant, along the first row
PDet(m) == IF Len(m) = 1 THEN m[1][1]
           ELSE PSum([j \in 1..Len(m) |->
                  LET t == PMul(m[1][j], PDet(PMinor(m, j))) IN IF j % 2 = 1 THEN t ELSE PNeg(t)])

\* ------------------------------------------------- the operators specs use
BInt(n)    == PInt(n)          \* from a TLA+ integer
BNeg(a)    == PNeg(a)
BAdd(a, b) == PAdd(a, b)
BSub(a, b) == PSub(a, b)
BMul(a, b) == PMul(a, b)
BCmp(a, b) == PCmp(a, b)       \* -1, 0, 1
BPow2(k)   == PPow2(k)
BDot(u, v) == PDot(u, v)       \* sum of u[i]*v[i]
BSum(s)    == PSum(s)
BVSub(u, v) == PVSub(u, v)     \* component-wise
BDet(m)    == PDet(m)          \* of a square matrix given by rows
\* Is x a number (used to guard recorded data)?
BIs(x)     == /\ Len(x) >= 1 /\ x[1] \in {-1,0,1}
              /\ \A i \in 2..Len(x) : x[i] \in 0..(Base-1)
              /\ (x[1] = 0) = (Len(x) = 1)
              /\ Len(x) > 1 => x[Len(x)] # 0

BZero == <<0>>
BOne  == <<1, 1>>
BSgn(a)    == a[1]
BAbs(a)    == IF a[1] < 0 THEN BNeg(a) ELSE a
BLess(a, b) == BCmp(a, b) < 0
BLeq(a, b)  == BCmp(a, b) <= 0
BSq(a)     == BMul(a, a)
BMax(a, b) == IF BLess(a, b) THEN b ELSE a
BPow2Mul(a, k) == BMul(a, BPow2(k))
=============================================================================
