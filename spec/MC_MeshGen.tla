----------------------------- MODULE MC_MeshGen -----------------------------
(* All resolutions up to bounds: the layout machine only produces sound      *)
(* meshes, at every step and in the end.                                     *)
EXTENDS MeshGen, TLC, Json
CONSTANTS MaxN, MaxM, Emit
VARIABLES kind, n, m, step, idx
vars == <<kind, n, m, step, idx>>

Init == /\ kind \in {"fan", "sphere", "torus"}
        /\ n \in 3..MaxN
        /\ m \in (IF kind = "fan" THEN {0} ELSE IF kind = "sphere" THEN 2..MaxM ELSE 3..MaxM)
        /\ step = 0 /\ idx = <<>>
Done == step = Steps(kind, n, m)
Next == /\ ~Done
        /\ step' = step + 1
        /\ idx' = idx \o Body(kind, n, m, step)
        /\ UNCHANGED <<kind, n, m>>

M == [idx |-> idx, nv |-> NV(kind, n, m), loc |-> [v \in 1..NV(kind, n, m) |-> Place(kind, n, m, v-1)]]
Sound  == WholeTriangles(M) /\ InRange(M) /\ EachOnce(M) /\ AllProper(M)
NoOverlap == LET k == Kept(M)  IN kind # "fan" => EdgesOnce(M, k, Edges(M, k))
InTheEnd == Done =>
  /\ LocsUsed(M) = Locs(M)
  /\ LET k == Kept(M)  e == Edges(M, k)
     IN /\ Closed(e) \/ kind = "fan"
        /\ kind # "fan" => OnePiece(e)
        /\ kind = "sphere" => Euler(M, k, e) = 2 /\ Cardinality(k) = 2*n*(m-1)
        /\ kind = "torus" => Euler(M, k, e) = 0 /\ Cardinality(k) = 2*n*m
        /\ kind = "fan" => {Canon(Tri(M, t)) : t \in 1..NTri(M)} = {Canon(t) : t \in FanTris(n)} /\ NTri(M) = 2*n
\* the triangles are those of Proof_Rings: the cells of two rings, or rows of a
\* ring between two poles
Laid == LET k == IF Done THEN <<>> ELSE Body(kind, n, m, step)
            P(x) == Place(kind, n, m, k[x])
            Nx(j) == (j + 1) % n
            T(i, j) == (i % m) * n + j
            S(i, j) == 2 + (i - 1) * n + j
        IN ~Done =>
           CASE kind = "fan" -> TRUE
             [] kind = "torus" -> LET i == step \div n  j == step % n  a == (i + 1) % m
                                  IN [x \in 1..6 |-> P(x)] = <<T(i, j), T(a, j), T(i, Nx(j)), T(i, Nx(j)), T(a, j), T(a, Nx(j))>>
             [] kind = "sphere" ->
                  IF step < n THEN [x \in 1..3 |-> P(x)] = <<0, S(1, step), S(1, Nx(step))>>
                  ELSE IF step < 2 * n THEN [x \in 1..3 |-> P(x)] = <<S(m - 1, step - n), 1, S(m - 1, Nx(step - n))>>
                  ELSE LET i == 1 + ((step - 2 * n) \div n)  j == step % n
                       IN [x \in 1..6 |-> P(x)] = <<S(i, j), S(i + 1, j), S(i, Nx(j)), S(i, Nx(j)), S(i + 1, j), S(i + 1, Nx(j))>>
\* the rings as the outside sees them: within a band, triangles turn one way
Emitted == (Emit /\ Done) => PrintT("OUT|" \o ToJson([kind |-> kind, n |-> n, m |-> m, tris |-> NTri(M), locs |-> Cardinality(Locs(M))]))
=============================================================================
