---------------------------- MODULE MC_Measures ----------------------------
(***************************************************************************)
(* The formulas of Measures mean what they should, for all triangles and    *)
(* all polygons of up to MaxSides corners on a small grid.  A polygon grows *)
(* by one corner per step.                                                  *)
(***************************************************************************)
EXTENDS Measures, TLC, Json
CONSTANTS W, H, MaxSides, Emit
VARIABLE poly
Pt(x, y) == <<BInt(x), BInt(y)>>
Grid == {Pt(x, y) : x \in 0..(W-1), y \in 0..(H-1)}
Init == poly = <<>>
Next == Len(poly) < MaxSides /\ \E p \in Grid : poly' = Append(poly, p)
A == poly[1]  B == poly[2]  C == poly[3]
Three == Len(poly) = 3
Round == Three /\ Orient(A, B, C) # 0
\* a + <<x, y>>/(2d), times 2d
Center2D == LET d == BMul(BInt(2), CenterD(A, B, C))
            IN <<BAdd(BMul(A[1], d), CenterX(A, B, C)), BAdd(BMul(A[2], d), CenterY(A, B, C))>>
Dist2(p) == LET d == BMul(BInt(2), CenterD(A, B, C))  v == BVSub(Center2D, <<BMul(p[1], d), BMul(p[2], d)>>) IN BDot(v, v)
TurnMeans == Three => /\ Turn2(A, B, C) = BNeg(CenterD(A, B, C)) /\ BSgn(Turn2(A, B, C)) = -Orient(A, B, C)
                      /\ Turn2(A, B, C) = Turn2(B, C, A) /\ Turn2(A, B, C) = BNeg(Turn2(B, A, C))
Equidistant == Round => Dist2(A) = Dist2(B) /\ Dist2(B) = Dist2(C)
InsideMeans == Round => \A p \in Grid : InCircle(A, B, C, p) = BCmp(Dist2(A), Dist2(p))
\* the product of the squared sides is the squared radius times (2d)^2
RadiusMeans == Round => BMul(SideLength2(poly, 1), BMul(SideLength2(poly, 2), SideLength2(poly, 3)))
                          = BAdd(BSq(CenterX(A, B, C)), BSq(CenterY(A, B, C)))
\* the area is that of the fan from any point; turning the list around negates it
Fan(o) == BSum([i \in 1..Len(poly) |-> BNeg(Turn2(o, poly[i], poly[Nx(poly, i)]))])
AreaMeans == poly # <<>> => /\ \A o \in Grid : Shoelace(poly) = Fan(o)
                            /\ Shoelace(poly) = Area2(poly)
                            /\ Shoelace(Reverse(poly)) = BNeg(Shoelace(poly))
                            /\ BLeq(BAbs(Shoelace(poly)), ShoelaceSize(poly))
Num(x) == CHOOSE n \in 0..(W + H) : BInt(n) = x
Output == Emit => PrintT("OUT|" \o ToJson([p |-> [i \in 1..Len(poly) |-> <<Num(poly[i][1]), Num(poly[i][2])>>]]))
Spec == Init /\ [][Next]_poly
=============================================================================
