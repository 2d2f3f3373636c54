--------------------------- MODULE MC_BowyerWatson ---------------------------
(***************************************************************************)
(* Incremental Delaunay tetrahedrisation: all points lie inside of a big     *)
(* tetrahedron (places 1..4); inserting a point removes the tetrahedra whose *)
(* spheres contain it and joins the point to the faces of the hole.  Every   *)
(* order of insertion of every general-position subset of Candidates.        *)
(***************************************************************************)
EXTENDS Geo3, TLC, Json
CONSTANTS NC, MinPts, MaxPts, Emit
VARIABLES set, order, tets
vars == <<set, order, tets>>
Cand0 == << <<0,0,0>>, <<7,1,2>>, <<1,8,3>>, <<2,3,9>>, <<5,6,4>>, <<9,4,8>>, <<3,1,5>>, <<6,9,7>>, <<4,2,1>>, <<8,7,3>> >>
Candidates == SubSeq(Cand0, 1, NC)
\* the corners of the big tetrahedron: box 0..9, one size is 9
Corners == << <<-90,-90,-90>>, <<270,-90,-90>>, <<-90,270,-90>>, <<-90,-90,270>> >>
B(q) == <<BInt(q[1]), BInt(q[2]), BInt(q[3])>>
Pts == TLCEval([i \in 1..(4 + NC) |-> IF i <= 4 THEN B(Corners[i]) ELSE B(Candidates[i - 4])])
Tup(t) == AsTuple(t)
Sph(t, e) == LET q == Tup(t) IN InSphere(Pts[q[1]], Pts[q[2]], Pts[q[3]], Pts[q[4]], Pts[e])
Ori(t) == LET q == Tup(t) IN Orient3(Pts[q[1]], Pts[q[2]], Pts[q[3]], Pts[q[4]])
Big == {1, 2, 3, 4}
SetToSeqOf(S) == LET RECURSIVE F(_) F(s) == IF s = {} THEN <<>> ELSE LET m == CHOOSE x \in s : \A y \in s : x <= y IN <<m>> \o F(s \ {m}) IN F(S)
GP(S) == GeneralPosition([i \in 1..Cardinality(S) |-> Pts[SetToSeqOf(S)[i]]])

Init == /\ set \in {S \in SUBSET (5..(4 + NC)) : Cardinality(S) >= MinPts /\ Cardinality(S) <= MaxPts}
        /\ GP(set \cup Big)
        /\ order = <<>> /\ tets = {Big}
In == {order[i] : i \in 1..Len(order)}
Hole(p) == {t \in tets : Sph(t, p) >= 0}
Rim(H) == {f \in UNION {FacesOf(t) : t \in H} : Cardinality({t \in H : f \subseteq t}) = 1}
Insert(p) == /\ order' = Append(order, p)
             /\ LET H == Hole(p) IN tets' = (tets \ H) \cup {f \cup {p} : f \in Rim(H)}
             /\ UNCHANGED set
Next == \E p \in set \ In : Insert(p)
Spec == Init /\ [][Next]_vars

Vol6(t) == LET q == Tup(t) IN BAbs(Vol(Pts[q[1]], Pts[q[2]], Pts[q[3]], Pts[q[4]]))
RECURSIVE SumVol(_)
SumVol(T) == IF T = {} THEN BZero ELSE LET t == CHOOSE x \in T : TRUE IN BAdd(Vol6(t), SumVol(T \ {t}))
Solid == \A t \in tets : Cardinality(t) = 4 /\ Ori(t) # 0
Fills == SumVol(tets) = Vol6(Big)
SharedOnce == \A f \in UNION {FacesOf(t) : t \in tets} : Cardinality({t \in tets : f \subseteq t}) = IF f \subseteq Big THEN 1 ELSE 2
AllUsed == UNION tets = In \cup Big
Empty == \A t \in tets : \A e \in (In \cup Big) \ t : Sph(t, e) < 0
\* what is listed in the end: the faces without a big corner, once per side
Listed == {f \in UNION {FacesOf(t) : t \in tets} : f \cap Big = {}}
Sorted == [i \in 1..Cardinality(set) |-> Pts[SetToSeqOf(set)[i]]]
Name(t) == {SetToSeqOf(set)[i] : i \in t}
Done == In = set
TrueFaces == UNION {FacesOf(Name(t)) : t \in DelaunayTetras(Sorted)}
Within(t) == LET q == Tup(t)  lo == Lo(Sorted)  hi == Hi(Sorted)
             IN SphereWithin(Pts[q[1]], Pts[q[2]], Pts[q[3]], Pts[q[4]], BVSub(lo, BVSub(hi, lo)), [k \in 1..3 |-> BAdd(hi[k], BSub(hi[k], lo[k]))])
Sound == (Done /\ Cardinality(set) >= 4) => Listed \subseteq TrueFaces
Complete == Done => \A t \in DelaunayTetras(Sorted) : Within(Name(t)) => FacesOf(Name(t)) \subseteq Listed
\* the outcome does not depend on the order: it is determined by emptiness
Determined == Done => \A t \in tets : EmptySphere(Pts, t, set \cup Big)
Output == (Emit /\ Done) => PrintT("OUT|" \o ToJson([p |-> [i \in 1..Len(order) |-> Candidates[order[i] - 4]]]))
=============================================================================
