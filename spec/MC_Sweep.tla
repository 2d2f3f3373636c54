------------------------------ MODULE MC_Sweep ------------------------------
(***************************************************************************)
(* The sweep as it is carried out on arrays: corners and mates of half-     *)
(* edges, the advancing hull as a linked ring whose nodes know their         *)
(* boundary half-edge, the walk for the first visible edge from any node     *)
(* (the hash only chooses which), the walks forward and back, and            *)
(* legalisation as the recursion which also repairs the ring.  After every   *)
(* point the arrays must say what MC_Delaunay says in sets.                  *)
(* How tells which parts are done: a part left out must show.                *)
(***************************************************************************)
EXTENDS Planar, TLC, Json
CONSTANTS W, H, MinPts, MaxPts, How, Emit
VARIABLES pts, left, s
vars == <<pts, left, s>>
Pt(x, y) == <<BInt(x), BInt(y)>>
GridSet == {Pt(x, y) : x \in 0..(W-1), y \in 0..(H-1)}
SortedSeq(S) == SetToSortSeq(S, LexLess)
P(i) == pts[i]
Ids == 1..Len(pts)
Center(t) ==
  LET a == t[1]  b == BVSub(t[2], t[1])  c == BVSub(t[3], t[1])
      d == BMul(BInt(2), BDet(<<b, c>>))
      bl == BDot(b, b)  cl == BDot(c, c)
      ux == BAdd(BMul(a[1], d), BSub(BMul(c[2], bl), BMul(b[2], cl)))
      uy == BAdd(BMul(a[2], d), BSub(BMul(b[1], cl), BMul(c[1], bl)))
      g == BInt(BSgn(d))
  IN <<<<BMul(g, ux), BMul(g, uy)>>, BMul(g, d)>>
DistC(k, p) == LET v == BVSub(<<BMul(p[1], k[2]), BMul(p[2], k[2])>>, k[1]) IN BDot(v, v)
--------------------------------------------------------------------------
\* s: tri and half as functions on 0..3m-1; nxt, prv, at on the nodes of the ring
Link(h, a, b) == IF b >= 0 THEN [h EXCEPT ![a] = b, ![b] = a] ELSE [h EXCEPT ![a] = b]
Size(S) == Cardinality(DOMAIN S.tri)
Add(S, i0, i1, i2, a, b, c) ==
  LET k == Size(S)
      h == S.half @@ (k :> -1) @@ ((k + 1) :> -1) @@ ((k + 2) :> -1)
  IN [S EXCEPT !.tri = @ @@ (k :> i0) @@ ((k + 1) :> i1) @@ ((k + 2) :> i2),
               !.half = Link(Link(Link(h, k, a), k + 1, b), k + 2, c)]
\* the nodes of the ring from the one it is held by
RECURSIVE Ring(_, _, _)
Ring(S, e, acc) == IF acc # <<>> /\ e = acc[1] THEN acc ELSE IF Len(acc) > Len(pts) THEN acc ELSE Ring(S, S.nxt[e], Append(acc, e))
Repair(S, bl, a) ==
  LET r == Ring(S, S.hull, <<>>)
      k == {j \in 1..Len(r) : S.at[r[j]] = bl}
  IN IF k = {} \/ How = "norepair" THEN S.at ELSE [S.at EXCEPT ![r[Min(k)]] = a]
RECURSIVE Leg(_, _)
Leg(S, a) ==
  LET b == S.half[a]
      a0 == a - (a % 3)
      ar == a0 + ((a + 2) % 3)
  IN IF b < 0 THEN [S |-> S, r |-> ar]
     ELSE LET b0 == b - (b % 3)
              al == a0 + ((a + 1) % 3)
              bl == b0 + ((b + 2) % 3)
              br == b0 + ((b + 1) % 3)
              p0 == S.tri[ar]  pr == S.tri[a]  pl == S.tri[al]  p1 == S.tri[bl]
          IN IF InCircle(P(p0), P(pr), P(pl), P(p1)) <= 0 THEN [S |-> S, r |-> ar]
             ELSE LET at == IF S.half[bl] = -1 THEN Repair(S, bl, a) ELSE S.at
                      h1 == Link(S.half, a, S.half[bl])
                      h2 == Link(h1, b, h1[ar])
                      h3 == Link(h2, ar, bl)
                      T == [S EXCEPT !.tri = [@ EXCEPT ![a] = p1, ![b] = p0], !.half = h3, !.at = at]
                      X == Leg(T, a)
                  IN Leg(X.S, br)
\* e becomes the node after d
Into(S, i, d) == [S EXCEPT !.nxt = [x \in DOMAIN @ \cup {i} |-> IF x = d THEN i ELSE IF x = i THEN S.nxt[d] ELSE @[x]],
                           !.prv = [x \in DOMAIN @ \cup {i} |-> IF x = S.nxt[d] THEN i ELSE IF x = i THEN d ELSE @[x]],
                           !.at = [x \in DOMAIN @ \cup {i} |-> IF x = i THEN IF How = "fresh" THEN -1 ELSE 0 ELSE @[x]]]
Out(S, q) == LET n == [S.nxt EXCEPT ![S.prv[q]] = S.nxt[q]]
                 p == [S.prv EXCEPT ![S.nxt[q]] = S.prv[q]]
                 D == DOMAIN S.nxt \ {q}
             IN [S EXCEPT !.nxt = [x \in D |-> n[x]], !.prv = [x \in D |-> p[x]], !.at = [x \in D |-> S.at[x]], !.hull = S.prv[q]]
Sees(S, i, a, b) == Orient(P(i), P(a), P(b)) = 1
RECURSIVE First(_, _, _, _)
First(S, i, start, e) == IF Sees(S, i, e, S.nxt[e]) THEN e ELSE IF S.nxt[e] = start THEN 0 ELSE First(S, i, start, S.nxt[e])
RECURSIVE Forward(_, _, _)
Forward(S, i, q) ==
  IF ~Sees(S, i, q, S.nxt[q]) THEN S
  ELSE LET t == Size(S)
           A == Add(S, q, i, S.nxt[q], S.at[S.prv[q]], -1, S.at[q])
           X == Leg(A, t + 2)
           B == [X.S EXCEPT !.at[X.S.prv[q]] = X.r]
       IN Forward(Out(B, q), i, B.nxt[q])
RECURSIVE Back(_, _, _)
Back(S, i, q) ==
  IF ~Sees(S, i, S.prv[q], q) THEN S
  ELSE LET t == Size(S)
           u == S.prv[q]
           A == Add(S, u, i, q, -1, S.at[q], S.at[u])
           X == Leg(A, t + 2)
           B == [X.S EXCEPT !.at[u] = t]
       IN Back(Out(B, q), i, u)
Put(S, i, start) ==
  LET e == First(S, i, start, start)
  IN IF e = 0 THEN S
     ELSE LET t == Size(S)
              d == S.nxt[e]
              A == Add(S, e, i, d, -1, -1, S.at[e])
              B == Into([A EXCEPT !.at[e] = t], i, e)
              X == Leg(B, t + 2)
              C == [X.S EXCEPT !.at[i] = X.r]
              F == Forward(C, i, C.nxt[i])
          IN IF e = start /\ How # "noback" THEN Back(F, i, F.prv[i]) ELSE F
--------------------------------------------------------------------------
Seeds(q) == {t \in {<<a, b, c>> : a \in DOMAIN q, b \in DOMAIN q, c \in DOMAIN q} :
               /\ t[1] < t[2] /\ t[1] < t[3] /\ Orient(q[t[1]], q[t[2]], q[t[3]]) = -1
               /\ \A i \in DOMAIN q : InCircle(q[t[1]], q[t[2]], q[t[3]], q[i]) <= 0}
Init == \E S \in {S \in SUBSET GridSet : Cardinality(S) >= MinPts /\ Cardinality(S) <= MaxPts} :
          LET q == SortedSeq(S) IN
          /\ ~AllCollinear(q)
          /\ pts = q
          /\ \E z \in Seeds(q) : \E o \in 0..2 :      \* listed from any corner
               LET c == [k \in 1..3 |-> z[((k + o - 1) % 3) + 1]] IN
               /\ s = [tri |-> (0 :> c[1]) @@ (1 :> c[2]) @@ (2 :> c[3]), half |-> (0 :> -1) @@ (1 :> -1) @@ (2 :> -1),
                       nxt |-> (c[1] :> c[2]) @@ (c[2] :> c[3]) @@ (c[3] :> c[1]), prv |-> (c[2] :> c[1]) @@ (c[3] :> c[2]) @@ (c[1] :> c[3]),
                       at |-> (c[1] :> 0) @@ (c[2] :> 1) @@ (c[3] :> 2), hull |-> c[3],
                       from |-> Center(<<q[c[1]], q[c[2]], q[c[3]]>>)]
               /\ left = (1..Len(q)) \ {c[1], c[2], c[3]}
Insert == /\ left # {}
          /\ \E i \in left : \E start \in DOMAIN s.nxt :
               /\ \A j \in left : BLeq(DistC(s.from, P(i)), DistC(s.from, P(j)))
               /\ s' = Put(s, i, start)
               /\ left' = left \ {i}
          /\ UNCHANGED pts
Next == Insert
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
--------------------------------------------------------------------------
Done == Ids \ left
E == DOMAIN s.half
Org(e) == s.tri[e]
NextE(e) == (e - (e % 3)) + ((e + 1) % 3)
Dst(e) == s.tri[NextE(e)]
Mutual == \A e \in E : s.half[e] = -1 \/ (s.half[e] \in E /\ s.half[s.half[e]] = e /\ Org(s.half[e]) = Dst(e) /\ Dst(s.half[e]) = Org(e))
\* the ring is the boundary, and its nodes know their half-edges
RingOk == LET r == Ring(s, s.hull, <<>>) IN
          /\ {r[j] : j \in 1..Len(r)} = DOMAIN s.nxt /\ Len(r) = Cardinality(DOMAIN s.nxt)
          /\ \A x \in DOMAIN s.nxt : s.prv[s.nxt[x]] = x /\ s.at[x] \in E /\ s.half[s.at[x]] = -1 /\ Org(s.at[x]) = x /\ Dst(s.at[x]) = s.nxt[x]
          /\ Cardinality({e \in E : s.half[e] = -1}) = Len(r)
Tri(k) == <<P(s.tri[3 * k]), P(s.tri[(3 * k) + 2]), P(s.tri[(3 * k) + 1])>>      \* turned to run counter-clockwise
Canon(t) == IF LexLess(t[1], t[2]) /\ LexLess(t[1], t[3]) THEN t
            ELSE IF LexLess(t[2], t[1]) /\ LexLess(t[2], t[3]) THEN <<t[2], t[3], t[1]>> ELSE <<t[3], t[1], t[2]>>
Tris == {Canon(Tri(k)) : k \in 0..((Cardinality(E) \div 3) - 1)}
InPts == {P(i) : i \in Done}
Tiled == Tiles(Tris, 1, Chain(SortedSeq(InPts))) /\ UNION {{t[1], t[2], t[3]} : t \in Tris} = InPts /\ 3 * Cardinality(Tris) = Cardinality(E)
Empty == EmptyCircles(Tris, InPts)
Room == Cardinality(E) <= 3 * ((2 * Len(pts)) - 5)
Ends == <>(left = {})
Output == (Emit /\ left = {}) => PrintT("OUT|" \o ToJson([p |-> [i \in Ids |-> <<CHOOSE x \in 0..W : BInt(x) = pts[i][1], CHOOSE y \in 0..H : BInt(y) = pts[i][2]>>]]))
=============================================================================
