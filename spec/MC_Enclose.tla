----------------------------- MODULE MC_Enclose -----------------------------
(* Extents are gathered point by point; the corners put around them in the   *)
(* end contain every point strictly, whatever the points are.                *)
(* Way 1: corner Margin sizes below the smallest coordinates, edges Edge     *)
(* sizes long. Way 2: a cone over the box enlarged by one on each side, from *)
(* a top above its first corner through a triangle around its upper face.    *)
EXTENDS Geo3, TLC, Json
CONSTANTS N, MaxPts, Margin, Edge, Emit
VARIABLES todo, lo, hi, pts
vars == <<todo, lo, hi, pts>>
Cube == {<<x, y, z>> : x \in 0..N, y \in 0..N, z \in 0..N}
B(q) == <<BInt(q[1]), BInt(q[2]), BInt(q[3])>>
Big == 1000
Init == /\ pts \in UNION {[1..k -> Cube] : k \in 1..MaxPts} /\ todo = pts
        /\ lo = <<Big, Big, Big>> /\ hi = <<-Big, -Big, -Big>>
Min(a, b) == IF b < a THEN b ELSE a
Max(a, b) == IF a < b THEN b ELSE a
Next == /\ todo # <<>> /\ todo' = Tail(todo) /\ UNCHANGED pts
        /\ lo' = [k \in 1..3 |-> Min(lo[k], Head(todo)[k])]
        /\ hi' = [k \in 1..3 |-> Max(hi[k], Head(todo)[k])]
Ps == [i \in 1..Len(pts) |-> B(pts[i])]
Extents == todo = <<>> => B(lo) = Lo(Ps) /\ B(hi) = Hi(Ps)
Size == LET s == Max(hi[1] - lo[1], Max(hi[2] - lo[2], hi[3] - lo[3])) IN IF s = 0 THEN 1 ELSE s
Way1 == LET c == [k \in 1..3 |-> lo[k] - Margin * Size]
        IN <<c, <<c[1] + Edge * Size, c[2], c[3]>>, <<c[1], c[2] + Edge * Size, c[3]>>, <<c[1], c[2], c[3] + Edge * Size>>>>
Way2 == LET l == [k \in 1..3 |-> lo[k] - 1]  h == [k \in 1..3 |-> hi[k] + 1]
            top == <<l[1], 2 * h[2] - l[2], l[3]>>
            Down(u) == [k \in 1..3 |-> 2 * u[k] - top[k]]      \* twice as far from the top
        IN <<top, Down(<<l[1], h[2], l[3]>>), Down(<<l[1], h[2], 2 * h[3] - l[3]>>), Down(<<2 * h[1] - l[1], h[2], l[3]>>)>>
Holds(c) == \A i \in 1..Len(Ps) : StrictlyInTetra([k \in 1..4 |-> B(c[k])], Ps[i])
Enclosed1 == todo = <<>> => Holds(Way1)
Enclosed2 == todo = <<>> => Holds(Way2)
Output == (Emit /\ todo = <<>>) => PrintT("OUT|" \o ToJson([p |-> pts]))
=============================================================================
