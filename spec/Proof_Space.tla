------------------------------ MODULE Proof_Space ------------------------------
(***************************************************************************)
(* What B03, B04 and B06 rest on, for all whole numbers: the volume of four     *)
(* points (one of them at the origin) under reordering, scaling and mirroring,  *)
(* and that the four parts into which a point splits a tetrahedron make up the  *)
(* whole.                                                                      *)
(***************************************************************************)
EXTENDS Integers, TLAPS
Minor(a, b, c, d) == a * d - b * c
Det(ax, ay, az, bx, by, bz, cx, cy, cz) ==
  ax * Minor(by, bz, cy, cz) - ay * Minor(bx, bz, cx, cz) + az * Minor(bx, by, cx, cy)
\* the volume of a b c seen from d
Vol(ax, ay, az, bx, by, bz, cx, cy, cz, dx, dy, dz) == Det(ax - dx, ay - dy, az - dz, bx - dx, by - dy, bz - dz, cx - dx, cy - dy, cz - dz)

THEOREM Rounds == \A ax, ay, az, bx, by, bz, cx, cy, cz \in Int :
  /\ Det(bx, by, bz, cx, cy, cz, ax, ay, az) = Det(ax, ay, az, bx, by, bz, cx, cy, cz)
  /\ Det(bx, by, bz, ax, ay, az, cx, cy, cz) = - Det(ax, ay, az, bx, by, bz, cx, cy, cz)
  BY DEF Det, Minor
THEOREM Mirrors == \A ax, ay, az, bx, by, bz, cx, cy, cz \in Int :
  /\ Det(-ax, ay, az, -bx, by, bz, -cx, cy, cz) = - Det(ax, ay, az, bx, by, bz, cx, cy, cz)
  /\ Det(ay, ax, az, by, bx, bz, cy, cx, cz) = - Det(ax, ay, az, bx, by, bz, cx, cy, cz)
  BY DEF Det, Minor
THEOREM Scales == \A ax, ay, az, bx, by, bz, cx, cy, cz, k \in Int :
  Det(k * ax, k * ay, k * az, k * bx, k * by, k * bz, k * cx, k * cy, k * cz) = (k * (k * k)) * Det(ax, ay, az, bx, by, bz, cx, cy, cz)
  BY DEF Det, Minor
THEOREM Moves == \A ax, ay, az, bx, by, bz, cx, cy, cz, dx, dy, dz, tx, ty, tz \in Int :
  Vol(ax + tx, ay + ty, az + tz, bx + tx, by + ty, bz + tz, cx + tx, cy + ty, cz + tz, dx + tx, dy + ty, dz + tz)
  = Vol(ax, ay, az, bx, by, bz, cx, cy, cz, dx, dy, dz)
<1> TAKE ax, ay, az, bx, by, bz, cx, cy, cz, dx, dy, dz, tx, ty, tz \in Int
<1>1. \A a, p, t \in Int : (a + t) - (p + t) = a - p
  OBVIOUS
<1> QED BY <1>1 DEF Vol
LEMMA Apart == \A ax, ay, az, bx, by, bz, cx, cy, cz, dx, dy, dz \in Int :
  Det(ax - dx, ay - dy, az - dz, bx, by, bz, cx, cy, cz) = Det(ax, ay, az, bx, by, bz, cx, cy, cz) - Det(dx, dy, dz, bx, by, bz, cx, cy, cz)
  BY DEF Det, Minor
LEMMA Zero == \A ax, ay, az, bx, by, bz \in Int : Det(ax, ay, az, ax, ay, az, bx, by, bz) = 0 /\ Det(ax, ay, az, bx, by, bz, ax, ay, az) = 0 /\ Det(ax, ay, az, bx, by, bz, bx, by, bz) = 0
<1> TAKE ax, ay, az, bx, by, bz \in Int
<1>1. Det(ax, ay, az, ax, ay, az, bx, by, bz) = 0
  BY DEF Det, Minor
<1>2. Det(ax, ay, az, bx, by, bz, ax, ay, az) = 0
  BY DEF Det, Minor
<1>3. Det(ax, ay, az, bx, by, bz, bx, by, bz) = 0
  BY DEF Det, Minor
<1> QED BY <1>1, <1>2, <1>3
LEMMA Whole == \A ax, ay, az, bx, by, bz, cx, cy, cz \in Int : Det(ax, ay, az, bx, by, bz, cx, cy, cz) \in Int
<1>1. \A a, b, c, d \in Int : Minor(a, b, c, d) \in Int
  BY DEF Minor
<1>2. \A a, b, c, d, e, f \in Int : a * b - c * d + e * f \in Int
  OBVIOUS
<1> QED BY <1>1, <1>2 DEF Det
\* the point that splits stands at the origin
THEOREM Parts == \A ax, ay, az, bx, by, bz, cx, cy, cz, dx, dy, dz \in Int :
  Vol(ax, ay, az, bx, by, bz, cx, cy, cz, dx, dy, dz)
  = Det(ax, ay, az, bx, by, bz, cx, cy, cz) - Det(dx, dy, dz, bx, by, bz, cx, cy, cz)
    - Det(ax, ay, az, dx, dy, dz, cx, cy, cz) - Det(ax, ay, az, bx, by, bz, dx, dy, dz)
<1> TAKE ax, ay, az, bx, by, bz, cx, cy, cz, dx, dy, dz \in Int
<1> DEFINE ex == bx - dx  ey == by - dy  ez == bz - dz  fx == cx - dx  fy == cy - dy  fz == cz - dz
<1>0. ex \in Int /\ ey \in Int /\ ez \in Int /\ fx \in Int /\ fy \in Int /\ fz \in Int
  OBVIOUS
<1>1. Vol(ax, ay, az, bx, by, bz, cx, cy, cz, dx, dy, dz) = Det(ax, ay, az, ex, ey, ez, fx, fy, fz) - Det(dx, dy, dz, ex, ey, ez, fx, fy, fz)
  <2>1. Vol(ax, ay, az, bx, by, bz, cx, cy, cz, dx, dy, dz) = Det(ax - dx, ay - dy, az - dz, ex, ey, ez, fx, fy, fz)
    BY DEF Vol
  <2> HIDE DEF ex, ey, ez, fx, fy, fz
  <2> QED BY <1>0, <2>1, Apart
<1>2. \A px, py, pz \in Int : Det(px, py, pz, ex, ey, ez, fx, fy, fz) = Det(px, py, pz, bx, by, bz, fx, fy, fz) - Det(px, py, pz, dx, dy, dz, fx, fy, fz)
  <2> TAKE px, py, pz \in Int
  <2> HIDE DEF fx, fy, fz
  <2>1. Det(ex, ey, ez, fx, fy, fz, px, py, pz) = Det(bx, by, bz, fx, fy, fz, px, py, pz) - Det(dx, dy, dz, fx, fy, fz, px, py, pz)
    BY <1>0, Apart
  <2>2. Det(ex, ey, ez, fx, fy, fz, px, py, pz) = Det(px, py, pz, ex, ey, ez, fx, fy, fz)
    BY <1>0, Rounds
  <2>3. Det(bx, by, bz, fx, fy, fz, px, py, pz) = Det(px, py, pz, bx, by, bz, fx, fy, fz) /\ Det(dx, dy, dz, fx, fy, fz, px, py, pz) = Det(px, py, pz, dx, dy, dz, fx, fy, fz)
    BY <1>0, Rounds
  <2> QED BY <2>1, <2>2, <2>3
<1>3. \A px, py, pz, qx, qy, qz \in Int : Det(px, py, pz, qx, qy, qz, fx, fy, fz) = Det(px, py, pz, qx, qy, qz, cx, cy, cz) - Det(px, py, pz, qx, qy, qz, dx, dy, dz)
  <2> TAKE px, py, pz, qx, qy, qz \in Int
  <2>1. Det(fx, fy, fz, px, py, pz, qx, qy, qz) = Det(cx, cy, cz, px, py, pz, qx, qy, qz) - Det(dx, dy, dz, px, py, pz, qx, qy, qz)
    BY Apart
  <2>2. \A rx, ry, rz \in Int : Det(rx, ry, rz, px, py, pz, qx, qy, qz) = Det(px, py, pz, qx, qy, qz, rx, ry, rz)
    BY Rounds
  <2>3. Det(fx, fy, fz, px, py, pz, qx, qy, qz) = Det(px, py, pz, qx, qy, qz, fx, fy, fz)
    BY <2>2, <1>0
  <2> HIDE DEF fx, fy, fz
  <2> QED BY <2>1, <2>2, <2>3
<1> HIDE DEF ex, ey, ez, fx, fy, fz
<1>4. Det(ax, ay, az, ex, ey, ez, fx, fy, fz) = (Det(ax, ay, az, bx, by, bz, cx, cy, cz) - Det(ax, ay, az, bx, by, bz, dx, dy, dz)) - (Det(ax, ay, az, dx, dy, dz, cx, cy, cz) - Det(ax, ay, az, dx, dy, dz, dx, dy, dz))
  BY <1>2, <1>3
<1>5. Det(dx, dy, dz, ex, ey, ez, fx, fy, fz) = (Det(dx, dy, dz, bx, by, bz, cx, cy, cz) - Det(dx, dy, dz, bx, by, bz, dx, dy, dz)) - (Det(dx, dy, dz, dx, dy, dz, cx, cy, cz) - Det(dx, dy, dz, dx, dy, dz, dx, dy, dz))
  BY <1>2, <1>3
<1>6. Det(ax, ay, az, dx, dy, dz, dx, dy, dz) = 0 /\ Det(dx, dy, dz, bx, by, bz, dx, dy, dz) = 0 /\ Det(dx, dy, dz, dx, dy, dz, cx, cy, cz) = 0 /\ Det(dx, dy, dz, dx, dy, dz, dx, dy, dz) = 0
  BY Zero
<1>7. Det(ax, ay, az, bx, by, bz, cx, cy, cz) \in Int /\ Det(ax, ay, az, bx, by, bz, dx, dy, dz) \in Int /\ Det(ax, ay, az, dx, dy, dz, cx, cy, cz) \in Int /\ Det(dx, dy, dz, bx, by, bz, cx, cy, cz) \in Int
  BY Whole
<1> QED BY <1>1, <1>4, <1>5, <1>6, <1>7
=============================================================================
