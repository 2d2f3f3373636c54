------------------------------ MODULE Trace_Vec ------------------------------
(***************************************************************************)
(* Recorded histories of vector operations (R01, R02) as behaviours of the    *)
(* register machine of Vec: each recorded state follows from the one before    *)
(* it; and recorded intersections, distances and normals (R03).               *)
(***************************************************************************)
EXTENDS TraceLoop, Plane

\* r.e: exponent of One; r.start: registers; r.steps: [op, i, j, f, g, dst, regs, res]
LOCAL One(r) == BPow2(r.e)
Before(r, k) == IF k = 1 THEN r.start ELSE r.steps[k - 1].regs
\* the vector or number a step gives: in-place ones leave it in their register
Result(t) == IF t.op \in InPlace THEN t.regs[t.i] ELSE t.res
GoodResult(t, was, one) ==
  LET a == was[t.i]  b == was[t.j]
  IN CASE t.op \in {"normalize", "normalizeOf"} -> Unit(a, Result(t), one, 48)
       [] t.op \in {"norm", "magnitude"} -> Root(t.res[1], Len2(a), 49)
       [] t.op = "distance" -> Root(t.res[1], Len2(BVSub(a, b)), 49)
       [] t.op = "isUnit" -> LET u == UnitTest(a, one) IN u = "edge" \/ t.yes = (u = "yes")
       [] OTHER -> Fits(t.op, a, b, t.f, t.g, one, Result(t), 49)
Touched(t) == IF t.op \in InPlace THEN {t.i} ELSE IF t.op \in ToVector /\ t.dst > 0 THEN {t.dst} ELSE {}
Kept(t, was) == \A k \in 1..Len(was) : k \notin Touched(t) => t.regs[k] = was[k]
Stored(t) == (t.op \in ToVector /\ t.dst > 0) => t.regs[t.dst] = t.res
\* what an in-place operation returns is its receiver
Returned(t) == (t.op \in InPlace /\ t.res # <<>>) => t.res = t.regs[t.i]
\* a normalised vector passes for a unit vector
WhyStep(t, was, one) ==
  IF ~t.finite THEN {t.op \o ": not a number"}
  ELSE Need(t.op \o ": wrong result", GoodResult(t, was, one))
       \cup Need(t.op \o ": another vector changed", Kept(t, was))
       \cup Need(t.op \o ": record", Stored(t))
       \cup Need(t.op \o ": what it returns is not its receiver", Returned(t))
WhyHistory(r) ==
  IF r.status # "ok" THEN {r.status}
  ELSE LET RECURSIVE W(_)
           W(k) == IF k > Len(r.steps) THEN {}
                   ELSE LET w == WhyStep(r.steps[k], Before(r, k), One(r)) IN IF w = {} THEN W(k + 1) ELSE w
       IN W(1)
\* ------------------------------------------------------------------ R03
WhyMeet(r) ==
  IF Slope(r.n, r.d) = BZero THEN Need("a parallel line is not refused", r.status = "panic")
  ELSE IF r.status # "ok" THEN {"no point although not parallel: " \o r.status}
  ELSE Need("not the common point of line and plane", MeetFits(r.p, r.d, r.o, r.n, r.m, r.den))
WhyDistance(r) ==
  IF r.status # "ok" THEN {r.status}
  ELSE Need("the origin of the plane is not at distance zero", DistFits(r.n, r.o, r.o, r.at0, One(r)))
       \cup Need("not the signed distance", r.unit => DistFits(r.n, r.o, r.q, r.dist, One(r)))
WhyNormal(r) ==
  IF r.status # "ok" THEN {r.status}
  ELSE Need("not perpendicular to both edges, or reversed", NormalFits(r.a, r.b, r.c, r.m))
=============================================================================
