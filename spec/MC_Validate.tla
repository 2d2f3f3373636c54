---------------------------- MODULE MC_Validate ----------------------------
(***************************************************************************)
(* Validation as the scan it is, over everything that two triangles over    *)
(* four points can be turned into: up to two wrong links, any list of       *)
(* triangles, any hull of at most MaxHull corners, and one wrong thing of    *)
(* each kind at once.  The verdict must be the meaning: links mutual, areas  *)
(* and lengths those of the hull of the points.  The points are the corners  *)
(* of a rectangle of sides A and B whose diagonal is C, all integers, so     *)
(* that lengths are exact.                                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Functions, FiniteSetsExt, TLC, Json
CONSTANTS A, B, C, MaxHull, Scan, Mix, Emit
ASSUME A * A + B * B = C * C
VARIABLES c, i, pc, verdict
vars == <<c, i, pc, verdict>>
P == <<<<0, 0>>, <<A, 0>>, <<A, B>>, <<0, B>>>>
\* 0 2 1 and 0 3 2, joined along 0-2
GoodTri == <<0, 2, 1, 0, 3, 2>>
GoodHalf == <<5, -1, -1, -1, -1, 0>>
GoodHull == <<0, 1, 2, 3>>
Links == -2..6
Good == [half |-> GoodHalf, tri |-> GoodTri, hull |-> GoodHull]
OneLink == {[GoodHalf EXCEPT ![a] = x] : a \in 1..6, x \in Links}
TwoLinks == {[h EXCEPT ![a] = x] : h \in OneLink, a \in 1..6, x \in Links}
Lists(n) == [1..n -> 0..3]
Hulls == UNION {Lists(n) : n \in 0..MaxHull}
OneTri == {[GoodTri EXCEPT ![a] = x] : a \in 1..6, x \in 0..3} \cup {<<0, 2, 1>>, <<0, 3, 2>>, <<>>, GoodTri \o <<0, 2, 1>>, GoodTri \o <<0, 1, 2>>, GoodTri \o <<1, 1, 3>>}
OneHull == {[GoodHull EXCEPT ![a] = x] : a \in 1..4, x \in 0..3} \cup {<<0, 1, 2>>, <<3, 2, 1, 0>>, <<1, 2, 3, 0>>}
Cases == {[Good EXCEPT !.half = h] : h \in TwoLinks} \cup {[Good EXCEPT !.tri = t] : t \in IF Mix THEN Lists(6) \cup OneTri ELSE OneTri} \cup {[Good EXCEPT !.hull = h] : h \in Hulls}
         \cup {[half |-> h, tri |-> t, hull |-> u] : h \in IF Mix THEN OneLink ELSE {}, t \in {t \in OneTri : Len(t) # 6 \/ t[1] = 0}, u \in OneHull}
Turn(a, b, d) == ((b[1] - a[1]) * (d[2] - a[2])) - ((b[2] - a[2]) * (d[1] - a[1]))
Abs(x) == IF x < 0 THEN -x ELSE x
Plus(x, y) == x + y
Sum(f) == FoldFunction(Plus, 0, f)
Pt(k) == P[k + 1]
NTri == Len(c.tri) \div 3
TriSigned == Abs(Sum([t \in 1..NTri |-> Turn(Pt(c.tri[(3 * t) - 2]), Pt(c.tri[(3 * t) - 1]), Pt(c.tri[3 * t]))]))
Nx(s, k) == IF k = Len(s) THEN 1 ELSE k + 1
HullArea == Sum([k \in 1..Len(c.hull) |-> LET p == Pt(c.hull[k])  q == Pt(c.hull[Nx(c.hull, k)]) IN (p[1] - q[1]) * (p[2] + q[2])])
Dist(p, q) == IF p = q THEN 0 ELSE IF p[2] = q[2] THEN A ELSE IF p[1] = q[1] THEN B ELSE C
HullLength == Sum([k \in 1..Len(c.hull) |-> Dist(Pt(c.hull[k]), Pt(c.hull[Nx(c.hull, k)]))])
--------------------------------------------------------------------------
\* the scan; Scan tells how far a link is looked at
End(v) == pc' = "done" /\ verdict' = v /\ UNCHANGED <<c, i>>
In(x) == x >= 0 /\ x < Len(c.half)
BadAt(k) == LET x == c.half[k + 1]
            IN CASE Scan = "both" -> x < -1 \/ x >= Len(c.half) \/ (x # -1 /\ c.half[x + 1] # k)
                 [] Scan = "smaller" -> x < -1 \/ x >= Len(c.half) \/ (x > k /\ c.half[x + 1] # k)
                 [] Scan = "linked" -> x < -1 \/ x >= Len(c.half) \/ (x # -1 /\ c.half[x + 1] = -1)
Init == c \in Cases /\ i = 0 /\ pc = "links" /\ verdict = "none"
Link == /\ pc = "links"
        /\ IF i = Len(c.half) THEN pc' = "areas" /\ UNCHANGED <<c, i, verdict>>
           ELSE IF BadAt(i) THEN End("links")
           ELSE i' = i + 1 /\ UNCHANGED <<c, pc, verdict>>
Areas == pc = "areas" /\ IF HullArea # 2 * A * B \/ TriSigned # 2 * A * B THEN End("areas")
                         ELSE pc' = "lengths" /\ UNCHANGED <<c, i, verdict>>
Lengths == pc = "lengths" /\ End(IF HullLength # 2 * (A + B) THEN "lengths" ELSE "sound")
Next == Link \/ Areas \/ Lengths
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
--------------------------------------------------------------------------
\* links as a relation: symmetric, and no end is linked twice
Pairs == {<<k - 1, c.half[k]>> : k \in {k \in 1..Len(c.half) : c.half[k] # -1}}
Mutual == \A e \in Pairs : In(e[2]) /\ <<e[2], e[1]>> \in Pairs
Means == pc = "done" => /\ (verdict = "links") = ~Mutual
                        /\ (verdict = "sound") = (Mutual /\ HullArea = 2 * A * B /\ TriSigned = 2 * A * B /\ HullLength = 2 * (A + B))
\* of the hulls only the right one goes through, from whichever corner it is listed
Corners(s) == {s[k] : k \in 1..Len(s)}
Simple == pc = "done" /\ verdict = "sound" /\ Len(c.hull) = 4 => \E n \in 0..3 : \A k \in 1..4 : c.hull[k] = (k - 1 + n) % 4
\* one triangle cannot do, and what was not touched is sound
Whole == pc = "done" => /\ (verdict = "sound" => NTri > 1)
                        /\ (c = Good => verdict = "sound")
Ends == <>(pc = "done")
Output == Emit /\ pc = "done" => PrintT("OUT|" \o ToJson([half |-> c.half, tri |-> c.tri, hull |-> c.hull, v |-> verdict]))
=============================================================================
