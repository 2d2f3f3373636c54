------------------------------- MODULE MC_Scan -------------------------------
(* A scan that keeps a best point so far ends with one of least distance.    *)
(* Ties may be kept or replaced.                                             *)
EXTENDS Scan, Sequences, TLC, Json
CONSTANTS N, MaxPts, Emit
VARIABLES pts, q
Grid == (0..N) \X (0..N)
Square(a, b) == (a[1] - b[1]) * (a[1] - b[1]) + (a[2] - b[2]) * (a[2] - b[2])
Init == /\ pts \in UNION {[1..k -> Grid] : k \in 1..MaxPts} /\ q \in Grid
        /\ len = Len(pts) /\ D = [k \in 1..Len(pts) |-> Square(pts[k], q)] /\ Begin
Next == Step /\ UNCHANGED <<pts, q>>
Output == (Emit /\ i = len) => PrintT("OUT|" \o ToJson([p |-> pts, q |-> q]))
=============================================================================
