------------------------------ MODULE Proof_Moves ------------------------------
(***************************************************************************)
(* What D05 and B01 say about moved points, for all whole numbers: the turn of  *)
(* three points and the place of a fourth one against their circle do not       *)
(* change when the points are moved, turned by a right angle, or scaled by a     *)
(* positive number, and change sign when mirrored, or listed the other way.     *)
(***************************************************************************)
EXTENDS Integers, TLAPS
Turn(ax, ay, bx, by, cx, cy) == (bx - ax) * (cy - ay) - (by - ay) * (cx - ax)
\* the determinant of the rows q - p, |q - p|^2
Minor(ax, ay, bx, by) == ax * by - ay * bx
Circ0(ax, ay, bx, by, cx, cy) ==
  (ax * ax + ay * ay) * Minor(bx, by, cx, cy) - (bx * bx + by * by) * Minor(ax, ay, cx, cy) + (cx * cx + cy * cy) * Minor(ax, ay, bx, by)
Circ(ax, ay, bx, by, cx, cy, px, py) == Circ0(ax - px, ay - py, bx - px, by - py, cx - px, cy - py)

THEOREM TurnMoves == \A ax, ay, bx, by, cx, cy, tx, ty \in Int :
  Turn(ax + tx, ay + ty, bx + tx, by + ty, cx + tx, cy + ty) = Turn(ax, ay, bx, by, cx, cy)
  BY DEF Turn
THEOREM TurnRounds == \A ax, ay, bx, by, cx, cy \in Int :
  /\ Turn(bx, by, cx, cy, ax, ay) = Turn(ax, ay, bx, by, cx, cy)
  /\ Turn(bx, by, ax, ay, cx, cy) = - Turn(ax, ay, bx, by, cx, cy)
  BY DEF Turn
THEOREM TurnScales == \A ax, ay, bx, by, cx, cy, k \in Int :
  Turn(k * ax, k * ay, k * bx, k * by, k * cx, k * cy) = (k * k) * Turn(ax, ay, bx, by, cx, cy)
  BY DEF Turn
THEOREM TurnTurns == \A ax, ay, bx, by, cx, cy \in Int :
  /\ Turn(-ay, ax, -by, bx, -cy, cx) = Turn(ax, ay, bx, by, cx, cy)
  /\ Turn(ay, ax, by, bx, cy, cx) = - Turn(ax, ay, bx, by, cx, cy)
  /\ Turn(-ax, ay, -bx, by, -cx, cy) = - Turn(ax, ay, bx, by, cx, cy)
  BY DEF Turn
THEOREM CircMoves == \A ax, ay, bx, by, cx, cy, px, py, tx, ty \in Int :
  Circ(ax + tx, ay + ty, bx + tx, by + ty, cx + tx, cy + ty, px + tx, py + ty) = Circ(ax, ay, bx, by, cx, cy, px, py)
<1> TAKE ax, ay, bx, by, cx, cy, px, py, tx, ty \in Int
<1>1. \A a, p, t \in Int : (a + t) - (p + t) = a - p
  OBVIOUS
<1> QED BY <1>1 DEF Circ
THEOREM CircScales == \A ax, ay, bx, by, cx, cy, k \in Int :
  Circ0(k * ax, k * ay, k * bx, k * by, k * cx, k * cy) = (k * k) * ((k * k) * Circ0(ax, ay, bx, by, cx, cy))
<1> TAKE ax, ay, bx, by, cx, cy, k \in Int
<1>1. \A x, y, z, w \in Int : Minor(x, y, z, w) \in Int /\ Minor(k * x, k * y, k * z, k * w) = (k * k) * Minor(x, y, z, w)
  BY DEF Minor
<1>2. \A x, y \in Int : (k * x) * (k * x) + (k * y) * (k * y) = (k * k) * (x * x + y * y)
  OBVIOUS
<1>3. \A c, n1, m1, n2, m2, n3, m3 \in Int :
        (c * n1) * (c * m1) - (c * n2) * (c * m2) + (c * n3) * (c * m3) = c * (c * (n1 * m1 - n2 * m2 + n3 * m3))
  OBVIOUS
<1>4. k * k \in Int /\ ax * ax + ay * ay \in Int /\ bx * bx + by * by \in Int /\ cx * cx + cy * cy \in Int
  OBVIOUS
<1> DEFINE m1 == Minor(bx, by, cx, cy)  m2 == Minor(ax, ay, cx, cy)  m3 == Minor(ax, ay, bx, by)
           n1 == ax * ax + ay * ay  n2 == bx * bx + by * by  n3 == cx * cx + cy * cy  c == k * k
<1>5. m1 \in Int /\ m2 \in Int /\ m3 \in Int /\ n1 \in Int /\ n2 \in Int /\ n3 \in Int /\ c \in Int
  BY <1>1, <1>4
<1>6. Circ0(k * ax, k * ay, k * bx, k * by, k * cx, k * cy) = (c * n1) * (c * m1) - (c * n2) * (c * m2) + (c * n3) * (c * m3)
  BY <1>1, <1>2 DEF Circ0
<1>7. Circ0(ax, ay, bx, by, cx, cy) = n1 * m1 - n2 * m2 + n3 * m3
  BY DEF Circ0
<1>8. (c * n1) * (c * m1) - (c * n2) * (c * m2) + (c * n3) * (c * m3) = c * (c * (n1 * m1 - n2 * m2 + n3 * m3))
  <2> HIDE DEF m1, m2, m3, n1, n2, n3, c
  <2> QED BY <1>3, <1>5
<1> QED BY <1>6, <1>7, <1>8
THEOREM CircRounds == \A ax, ay, bx, by, cx, cy \in Int :
  /\ Circ0(bx, by, cx, cy, ax, ay) = Circ0(ax, ay, bx, by, cx, cy)
  /\ Circ0(bx, by, ax, ay, cx, cy) = - Circ0(ax, ay, bx, by, cx, cy)
  BY DEF Circ0, Minor
THEOREM CircTurn == \A ax, ay, bx, by, cx, cy \in Int : Circ0(-ay, ax, -by, bx, -cy, cx) = Circ0(ax, ay, bx, by, cx, cy)
<1> TAKE ax, ay, bx, by, cx, cy \in Int
<1>1. \A x, y, z, w \in Int : Minor(-y, x, -w, z) = Minor(x, y, z, w) /\ Minor(x, y, z, w) \in Int
  BY DEF Minor
<1>2. \A x, y \in Int : (-y) * (-y) + x * x = x * x + y * y
  OBVIOUS
<1> QED BY <1>1, <1>2 DEF Circ0
THEOREM CircSwap == \A ax, ay, bx, by, cx, cy \in Int : Circ0(ay, ax, by, bx, cy, cx) = - Circ0(ax, ay, bx, by, cx, cy)
<1> TAKE ax, ay, bx, by, cx, cy \in Int
<1>1. \A x, y, z, w \in Int : Minor(y, x, w, z) = - Minor(x, y, z, w) /\ Minor(x, y, z, w) \in Int
  BY DEF Minor
<1>2. \A x, y \in Int : y * y + x * x = x * x + y * y /\ x * x + y * y \in Int
  OBVIOUS
<1>3. \A n1, m1, n2, m2, n3, m3 \in Int : n1 * (-m1) - n2 * (-m2) + n3 * (-m3) = - (n1 * m1 - n2 * m2 + n3 * m3)
  OBVIOUS
<1>4. \A x, y, z, w \in Int : Minor(x, y, z, w) \in Int
  BY <1>1
<1>5. Circ0(ay, ax, by, bx, cy, cx) = (ax * ax + ay * ay) * (- Minor(bx, by, cx, cy)) - (bx * bx + by * by) * (- Minor(ax, ay, cx, cy)) + (cx * cx + cy * cy) * (- Minor(ax, ay, bx, by))
  BY <1>1, <1>2 DEF Circ0
<1> HIDE DEF Minor
<1> QED BY <1>2, <1>3, <1>4, <1>5 DEF Circ0
THEOREM CircMirror == \A ax, ay, bx, by, cx, cy \in Int : Circ0(-ax, ay, -bx, by, -cx, cy) = - Circ0(ax, ay, bx, by, cx, cy)
<1> TAKE ax, ay, bx, by, cx, cy \in Int
<1>1. Circ0(-ax, ay, -bx, by, -cx, cy) = Circ0(ay, ax, by, bx, cy, cx)
  <2>1. Circ0(-ax, ay, -bx, by, -cx, cy) = Circ0(ay, ax, by, bx, cy, cx)
    BY CircTurn
  <2> QED BY <2>1
<1> QED BY <1>1, CircSwap
\* the two triangles of a quadrilateral agree on whether it is locally Delaunay
\* (seen from its fourth corner, which stands at the origin)
THEOREM CircBoth == \A ax, ay, bx, by, cx, cy \in Int :
  Circ0(ax, ay, bx, by, cx, cy) = - Circ0(bx - ax, by - ay, cx - ax, cy - ay, -ax, -ay)
<1> TAKE ax, ay, bx, by, cx, cy \in Int
<1> DEFINE u == ax * ax + ay * ay  v == bx * bx + by * by  w == cx * cx + cy * cy
           d == ax * bx + ay * by  e == ax * cx + ay * cy
           AB == Minor(ax, ay, bx, by)  AC == Minor(ax, ay, cx, cy)  BC == Minor(bx, by, cx, cy)
<1>1. u \in Int /\ v \in Int /\ w \in Int /\ d \in Int /\ e \in Int /\ AB \in Int /\ AC \in Int /\ BC \in Int
  BY DEF Minor
<1>2. d * AC - e * AB = u * BC
  BY DEF Minor
<1>3. /\ Minor(cx - ax, cy - ay, -ax, -ay) = AC
      /\ Minor(bx - ax, by - ay, -ax, -ay) = AB
      /\ Minor(bx - ax, by - ay, cx - ax, cy - ay) = BC + AB - AC
  <2>1. Minor(cx - ax, cy - ay, -ax, -ay) = AC
    BY DEF Minor
  <2>2. Minor(bx - ax, by - ay, -ax, -ay) = AB
    BY DEF Minor
  <2>3. Minor(bx - ax, by - ay, cx - ax, cy - ay) = BC + AB - AC
    BY DEF Minor
  <2> QED BY <2>1, <2>2, <2>3
<1>4. /\ (bx - ax) * (bx - ax) + (by - ay) * (by - ay) = v + u - 2 * d
      /\ (cx - ax) * (cx - ax) + (cy - ay) * (cy - ay) = w + u - 2 * e
      /\ (-ax) * (-ax) + (-ay) * (-ay) = u
  OBVIOUS
<1>5. Circ0(bx - ax, by - ay, cx - ax, cy - ay, -ax, -ay) = (v + u - 2 * d) * AC - (w + u - 2 * e) * AB + u * (BC + AB - AC)
  BY <1>3, <1>4 DEF Circ0
<1>6. Circ0(ax, ay, bx, by, cx, cy) = u * BC - v * AC + w * AB
  BY DEF Circ0
<1>7. u * BC - v * AC + w * AB = - ((v + u - 2 * d) * AC - (w + u - 2 * e) * AB + u * (BC + AB - AC))
  <2> HIDE DEF u, v, w, d, e, AB, AC, BC
  <2>1. d * AC - e * AB = u * BC
    BY <1>2
  <2>2. (v + u - 2 * d) * AC - (w + u - 2 * e) * AB + u * (BC + AB - AC) = v * AC - w * AB + u * BC - 2 * (d * AC - e * AB)
    BY <1>1
  <2> QED BY <1>1, <2>1, <2>2
<1> QED BY <1>5, <1>6, <1>7
\* the three parts of a triangle make up the whole
THEOREM Parts == \A ax, ay, bx, by, cx, cy, px, py \in Int :
  Turn(ax, ay, bx, by, cx, cy) = Turn(px, py, bx, by, cx, cy) + Turn(ax, ay, px, py, cx, cy) + Turn(ax, ay, bx, by, px, py)
  BY DEF Turn
=============================================================================
