------------------------------ MODULE MeshGen ------------------------------
(***************************************************************************)
(* How the shapes lay out their triangles: a machine that takes the loops   *)
(* of generateIndices one triangle at a time.  Vertices are numbered as in  *)
(* the code; Place gives the abstract location of each.                     *)
(***************************************************************************)
EXTENDS Mesh

\* number of vertices
NV(kind, n, m) == IF kind = "fan" THEN n + 1 ELSE (m + 1) * (n + 1)
\* abstract location of vertex v: rings are closed up, poles collapse
Place(kind, n, m, v) ==
  IF kind = "fan" THEN v
  ELSE LET i == v \div (n + 1)  j == (v % (n + 1)) % n
       IN IF kind = "torus" THEN (i % m) * n + j
          ELSE IF i = 0 THEN 0 ELSE IF i = m THEN 1 ELSE 2 + (i - 1) * n + j

\* The loops, as a sequence of phases; each step emits the triangles of one
\* pass through a loop body.
Steps(kind, n, m) ==
  CASE kind = "fan"    -> n
    [] kind = "torus"  -> m * n
    [] kind = "sphere" -> 2 * n + (m - 2) * n
Body(kind, n, m, s) ==      \* s counts from 0
  CASE kind = "fan" ->
         IF s < n - 1 THEN <<0, s+1, s+2, s+2, s+1, 0>> ELSE <<0, n, 1, 1, n, 0>>
    [] kind = "torus" ->
         LET k1 == (s \div n) * (n + 1) + (s % n)   k2 == k1 + n + 1
         IN <<k1, k2, k1+1, k1+1, k2, k2+1>>
    [] kind = "sphere" ->
         IF s < n THEN LET k1 == s  k2 == n + 1 + s IN <<k1+1, k2, k2+1>>
         ELSE IF s < 2*n THEN LET k1 == (m-1)*(n+1) + s - n  k2 == k1 + n + 1 IN <<k1, k2, k1+1>>
         ELSE LET q == s - 2*n
                  k1 == (1 + (q \div n)) * (n + 1) + (q % n)   k2 == k1 + n + 1
              IN <<k1, k2, k1+1, k1+1, k2, k2+1>>
=============================================================================
