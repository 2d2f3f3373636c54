------------------------------ MODULE Proof_Rings ------------------------------
(***************************************************************************)
(* The layouts of MeshGen at every resolution. A torus is rings I by rings J,   *)
(* each with a successor that comes back neither in one step nor in two; a      *)
(* sphere is rows 1..Last of a ring J between two poles. Every directed edge    *)
(* belongs to one triangle only and the opposite edge belongs to one as well:   *)
(* the surface is closed, and turns the same way everywhere. MC_MeshGen checks  *)
(* (Laid) that the triangles of MeshGen are these.                             *)
(***************************************************************************)
EXTENDS Integers, TLAPS
CONSTANTS I, si, pi, J, sj, pj, Last, Top, Bottom
Ring(R, s, p) == /\ s \in [R -> R] /\ p \in [R -> R]
                 /\ \A x \in R : p[s[x]] = x /\ s[p[x]] = x /\ s[x] # x /\ s[s[x]] # x
ASSUME RingI == Ring(I, si, pi)
ASSUME RingJ == Ring(J, sj, pj)
ASSUME Rows == Last \in Nat /\ Last >= 1
\* a corner of a triangle, and where an edge comes from and goes to; the
\* triangles of cell (i, j) are edges 1 2 3 and 4 5 6
At(i, j) == [row |-> i, col |-> j]
TFrom(k, i, j) == CASE k = 1 -> At(i, j) [] k = 2 -> At(si[i], j) [] k = 3 -> At(i, sj[j])
                    [] k = 4 -> At(i, sj[j]) [] k = 5 -> At(si[i], j) [] k = 6 -> At(si[i], sj[j])
TTo(k, i, j)   == CASE k = 1 -> At(si[i], j) [] k = 2 -> At(i, sj[j]) [] k = 3 -> At(i, j)
                    [] k = 4 -> At(si[i], j) [] k = 5 -> At(si[i], sj[j]) [] k = 6 -> At(i, sj[j])
Mate(k, i, j) == CASE k = 1 -> <<6, i, pj[j]>> [] k = 6 -> <<1, i, sj[j]>>
                   [] k = 2 -> <<4, i, j>> [] k = 4 -> <<2, i, j>>
                   [] k = 3 -> <<5, pi[i], j>> [] k = 5 -> <<3, si[i], j>>

LEMMA Same == \A i, j, a, b : At(i, j) = At(a, b) => i = a /\ j = b
<1> TAKE i, j, a, b
<1> HAVE At(i, j) = At(a, b)
<1>1. At(i, j).row = i /\ At(i, j).col = j /\ At(a, b).row = a /\ At(a, b).col = b
  BY DEF At
<1> QED BY <1>1

THEOREM TorusOnce ==
  ASSUME NEW k \in 1..6, NEW i \in I, NEW j \in J, NEW l \in 1..6, NEW a \in I, NEW b \in J,
         TFrom(k, i, j) = TFrom(l, a, b), TTo(k, i, j) = TTo(l, a, b)
  PROVE  k = l /\ i = a /\ j = b
<1>1. CASE k = 1
  BY <1>1, Same, RingI, RingJ DEF TFrom, TTo, Ring
<1>2. CASE k = 2
  BY <1>2, Same, RingI, RingJ DEF TFrom, TTo, Ring
<1>3. CASE k = 3
  BY <1>3, Same, RingI, RingJ DEF TFrom, TTo, Ring
<1>4. CASE k = 4
  BY <1>4, Same, RingI, RingJ DEF TFrom, TTo, Ring
<1>5. CASE k = 5
  BY <1>5, Same, RingI, RingJ DEF TFrom, TTo, Ring
<1>6. CASE k = 6
  BY <1>6, Same, RingI, RingJ DEF TFrom, TTo, Ring
<1> QED BY <1>1, <1>2, <1>3, <1>4, <1>5, <1>6

THEOREM TorusClosed ==
  ASSUME NEW k \in 1..6, NEW i \in I, NEW j \in J
  PROVE  \E l \in 1..6, a \in I, b \in J : TFrom(l, a, b) = TTo(k, i, j) /\ TTo(l, a, b) = TFrom(k, i, j)
<1>1. CASE k = 1
  <2>1. TFrom(6, i, pj[j]) = TTo(k, i, j) /\ TTo(6, i, pj[j]) = TFrom(k, i, j) /\ pj[j] \in J
    BY <1>1, RingI, RingJ DEF TFrom, TTo, Ring
  <2> QED BY <2>1
<1>2. CASE k = 2
  <2>1. TFrom(4, i, j) = TTo(k, i, j) /\ TTo(4, i, j) = TFrom(k, i, j)
    BY <1>2 DEF TFrom, TTo
  <2> QED BY <2>1
<1>3. CASE k = 3
  <2>1. TFrom(5, pi[i], j) = TTo(k, i, j) /\ TTo(5, pi[i], j) = TFrom(k, i, j) /\ pi[i] \in I
    BY <1>3, RingI, RingJ DEF TFrom, TTo, Ring
  <2> QED BY <2>1
<1>4. CASE k = 4
  <2>1. TFrom(2, i, j) = TTo(k, i, j) /\ TTo(2, i, j) = TFrom(k, i, j)
    BY <1>4 DEF TFrom, TTo
  <2> QED BY <2>1
<1>5. CASE k = 5
  <2>1. TFrom(3, si[i], j) = TTo(k, i, j) /\ TTo(3, si[i], j) = TFrom(k, i, j) /\ si[i] \in I
    BY <1>5, RingI, RingJ DEF TFrom, TTo, Ring
  <2> QED BY <2>1
<1>6. CASE k = 6
  <2>1. TFrom(1, i, sj[j]) = TTo(k, i, j) /\ TTo(1, i, sj[j]) = TFrom(k, i, j) /\ sj[j] \in J
    BY <1>6, RingI, RingJ DEF TFrom, TTo, Ring
  <2> QED BY <2>1
<1> QED BY <1>1, <1>2, <1>3, <1>4, <1>5, <1>6

\* the sphere: edges 1..6 of the cells between rows i and i + 1, 7 8 9 of the
\* caps at the top, 10 11 12 of those at the bottom
ASSUME Poles == Top # Bottom /\ \A r \in 1..Last, x \in J : At(r, x) # Top /\ At(r, x) # Bottom
SFrom(k, i, j) == CASE k = 1 -> At(i, j) [] k = 2 -> At(i + 1, j) [] k = 3 -> At(i, sj[j])
                    [] k = 4 -> At(i, sj[j]) [] k = 5 -> At(i + 1, j) [] k = 6 -> At(i + 1, sj[j])
                    [] k = 7 -> Top [] k = 8 -> At(1, j) [] k = 9 -> At(1, sj[j])
                    [] k = 10 -> At(Last, j) [] k = 11 -> Bottom [] k = 12 -> At(Last, sj[j])
STo(k, i, j)   == CASE k = 1 -> At(i + 1, j) [] k = 2 -> At(i, sj[j]) [] k = 3 -> At(i, j)
                    [] k = 4 -> At(i + 1, j) [] k = 5 -> At(i + 1, sj[j]) [] k = 6 -> At(i, sj[j])
                    [] k = 7 -> At(1, j) [] k = 8 -> At(1, sj[j]) [] k = 9 -> Top
                    [] k = 10 -> Bottom [] k = 11 -> At(Last, sj[j]) [] k = 12 -> At(Last, j)
InCell(k, i) == k \in 1..12 /\ i \in 0..Last /\ (IF k =< 6 THEN i >= 1 /\ i < Last ELSE i = 0)

THEOREM SphereClosed ==
  ASSUME NEW k, NEW i, NEW j \in J, InCell(k, i)
  PROVE  \E l \in 1..12, a \in 0..Last, b \in J :
           InCell(l, a) /\ SFrom(l, a, b) = STo(k, i, j) /\ STo(l, a, b) = SFrom(k, i, j)
<1> DEFINE Opp(l, a, b) == l \in 1..12 /\ a \in 0..Last /\ b \in J /\ InCell(l, a) /\ SFrom(l, a, b) = STo(k, i, j) /\ STo(l, a, b) = SFrom(k, i, j)
<1>0. k \in 1..12 /\ i \in 0..Last /\ pj[j] \in J /\ sj[j] \in J /\ sj[pj[j]] = j
  BY RingJ DEF InCell, Ring
<1>1. CASE k = 1
  <2>1. Opp(6, i, pj[j])
    BY <1>0, <1>1, Rows DEF SFrom, STo, InCell
  <2> QED BY <2>1
<1>2. CASE k = 2
  <2>1. Opp(4, i, j)
    BY <1>0, <1>2, Rows DEF SFrom, STo, InCell
  <2> QED BY <2>1
<1>3. CASE k = 3
  <2>1. CASE i = 1
    <3>1. Opp(8, 0, j)
      BY <1>0, <1>3, <2>1, Rows DEF SFrom, STo, InCell
    <3> QED BY <3>1
  <2>2. CASE i # 1
    <3>1. Opp(5, i - 1, j)
      BY <1>0, <1>3, <2>2, Rows DEF SFrom, STo, InCell
    <3> QED BY <3>1
  <2> QED BY <2>1, <2>2
<1>4. CASE k = 4
  <2>1. Opp(2, i, j)
    BY <1>0, <1>4, Rows DEF SFrom, STo, InCell
  <2> QED BY <2>1
<1>5. CASE k = 5
  <2>1. CASE i + 1 = Last
    <3>1. Opp(12, 0, j)
      BY <1>0, <1>5, <2>1, Rows DEF SFrom, STo, InCell
    <3> QED BY <3>1
  <2>2. CASE i + 1 # Last
    <3>1. Opp(3, i + 1, j)
      BY <1>0, <1>5, <2>2, Rows DEF SFrom, STo, InCell
    <3> QED BY <3>1
  <2> QED BY <2>1, <2>2
<1>6. CASE k = 6
  <2>1. Opp(1, i, sj[j])
    BY <1>0, <1>6, Rows DEF SFrom, STo, InCell
  <2> QED BY <2>1
<1>7. CASE k = 7
  <2>1. Opp(9, 0, pj[j])
    BY <1>0, <1>7, Rows DEF SFrom, STo, InCell
  <2> QED BY <2>1
<1>8. CASE k = 8
  <2>1. CASE Last = 1
    <3>1. Opp(12, 0, j)
      BY <1>0, <1>8, <2>1, Rows DEF SFrom, STo, InCell
    <3> QED BY <3>1
  <2>2. CASE Last # 1
    <3>1. Opp(3, 1, j)
      BY <1>0, <1>8, <2>2, Rows DEF SFrom, STo, InCell
    <3> QED BY <3>1
  <2> QED BY <2>1, <2>2
<1>9. CASE k = 9
  <2>1. Opp(7, 0, sj[j])
    BY <1>0, <1>9, Rows DEF SFrom, STo, InCell
  <2> QED BY <2>1
<1>10. CASE k = 10
  <2>1. Opp(11, 0, pj[j])
    BY <1>0, <1>10, Rows DEF SFrom, STo, InCell
  <2> QED BY <2>1
<1>11. CASE k = 11
  <2>1. Opp(10, 0, sj[j])
    BY <1>0, <1>11, Rows DEF SFrom, STo, InCell
  <2> QED BY <2>1
<1>12. CASE k = 12
  <2>1. CASE Last = 1
    <3>1. Opp(8, 0, j)
      BY <1>0, <1>12, <2>1, Rows DEF SFrom, STo, InCell
    <3> QED BY <3>1
  <2>2. CASE Last # 1
    <3>1. Opp(5, Last - 1, j)
      BY <1>0, <1>12, <2>2, Rows DEF SFrom, STo, InCell
    <3> QED BY <3>1
  <2> QED BY <2>1, <2>2
<1> QED BY <1>0, <1>1, <1>2, <1>3, <1>4, <1>5, <1>6, <1>7, <1>8, <1>9, <1>10, <1>11, <1>12

THEOREM SphereOnce ==
  ASSUME NEW k, NEW i, NEW j \in J, InCell(k, i), NEW l, NEW a, NEW b \in J, InCell(l, a),
         SFrom(k, i, j) = SFrom(l, a, b), STo(k, i, j) = STo(l, a, b)
  PROVE  k = l /\ i = a /\ j = b
<1>b. \A r \in 1..Last, x \in J : At(r, x) # Top /\ At(r, x) # Bottom
  BY Poles
<1>c. k \in 1..12 /\ l \in 1..12 /\ i \in 0..Last /\ a \in 0..Last
  BY DEF InCell
<1>d. sj[j] \in J /\ sj[b] \in J
  BY RingJ DEF Ring
<1>0. /\ k \in 1..12 /\ l \in 1..12 /\ i \in 0..Last /\ a \in 0..Last
      /\ \A r \in 1..Last, x \in J : At(r, x) # Top /\ At(r, x) # Bottom
      /\ sj[j] \in J /\ sj[b] \in J /\ Last \in Nat /\ Last >= 1
      /\ Top # Bottom
  BY <1>b, <1>c, <1>d, Poles, Rows
<1>a. \A x, y \in J : (sj[x] = sj[y] => x = y) /\ sj[x] # x /\ sj[sj[x]] # x
  BY RingJ DEF Ring
<1>1. CASE k = 1
  BY <1>1, <1>0, <1>a, Same DEF SFrom, STo, InCell
<1>2. CASE k = 2
  BY <1>2, <1>0, <1>a, Same DEF SFrom, STo, InCell
<1>3. CASE k = 3
  BY <1>3, <1>0, <1>a, Same DEF SFrom, STo, InCell
<1>4. CASE k = 4
  BY <1>4, <1>0, <1>a, Same DEF SFrom, STo, InCell
<1>5. CASE k = 5
  BY <1>5, <1>0, <1>a, Same DEF SFrom, STo, InCell
<1>6. CASE k = 6
  BY <1>6, <1>0, <1>a, Same DEF SFrom, STo, InCell
<1>7. CASE k = 7
  BY <1>7, <1>0, <1>a, Same DEF SFrom, STo, InCell
<1>8. CASE k = 8
  BY <1>8, <1>0, <1>a, Same DEF SFrom, STo, InCell
<1>9. CASE k = 9
  BY <1>9, <1>0, <1>a, Same DEF SFrom, STo, InCell
<1>10. CASE k = 10
  BY <1>10, <1>0, <1>a, Same DEF SFrom, STo, InCell
<1>11. CASE k = 11
  BY <1>11, <1>0, <1>a, Same DEF SFrom, STo, InCell
<1>12. CASE k = 12
  BY <1>12, <1>0, <1>a, Same DEF SFrom, STo, InCell
<1> QED BY <1>0, <1>1, <1>2, <1>3, <1>4, <1>5, <1>6, <1>7, <1>8, <1>9, <1>10, <1>11, <1>12
=============================================================================
