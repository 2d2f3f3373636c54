------------------------------- MODULE MC_Vec -------------------------------
(***************************************************************************)
(* All short histories of operations over two vector registers (small whole   *)
(* numbers), with operands and destinations the same or not.                 *)
(***************************************************************************)
EXTENDS Vec, Integers, Sequences, Json
CONSTANTS Depth, Emit
VARIABLES reg, hist, last
vars == <<reg, hist, last>>
Starts == { << <<1, -2, 2>>, <<3, 0, -1>> >>, << <<0, 0, 0>>, <<-2, 5, 1>> >> }
B3(v) == <<BInt(v[1]), BInt(v[2]), BInt(v[3])>>
Init == /\ \E s \in Starts : reg = <<B3(s[1]), B3(s[2])>>
        /\ hist = <<>> /\ last = [was |-> reg, start |-> reg]
Ops == (InPlace \cup ToVector) \ {"normalize", "normalizeOf"}
Unary == {"abs", "absOf", "scale", "scale2", "scaled"}
Facs(op) == IF op \in {"scale", "scaled", "scale2"} THEN {-3, 0, 1} ELSE IF op \in {"interpolate", "interpolateAt"} THEN {0, 1, 2} ELSE {1}
Apply(op, i, j, f, dst) ==
  LET res == Exactly(op, reg[i], reg[j], BInt(f), BInt(2), BOne)
  IN /\ reg' = [reg EXCEPT ![IF op \in InPlace THEN i ELSE dst] = res]
     /\ hist' = Append(hist, [op |-> op, i |-> i, j |-> j, f |-> f, dst |-> dst])
     /\ last' = [was |-> reg, start |-> last.start]
Next == /\ Len(hist) < Depth
        /\ \E op \in Ops, i \in 1..2, j \in 1..2, dst \in 1..2 : \E f \in Facs(op) :
             /\ op \in Unary => j = 1
             /\ op \in InPlace => dst = 1
             /\ Apply(op, i, j, f, dst)
Spec == Init /\ [][Next]_vars
H == hist[Len(hist)]
Target == IF H.op \in InPlace THEN H.i ELSE H.dst
OnlyTarget == hist # <<>> => \A k \in 1..2 : k # Target => reg[k] = last.was[k]
\* the exact result is among those accepted
Accepts == hist # <<>> => Fits(H.op, last.was[H.i], last.was[H.j], BInt(H.f), BInt(2), BOne, reg[Target], 50)
\* and nothing else among the whole-number vectors around it
Rejects == hist # <<>> => \A k \in 1..3 : ~Fits(H.op, last.was[H.i], last.was[H.j], BInt(H.f), BInt(2), BOne, [reg[Target] EXCEPT ![k] = BAdd(@, BOne)], 50)
\* laws that tie the operations together, in every state reached
a == reg[1]
b == reg[2]
Ex2(op, x, y, f) == Exactly(op, x, y, BInt(f), BInt(2), BOne)
Laws == /\ Ex2("cross", a, b, 1) = Ex2("scaled", Ex2("cross", b, a, 1), a, -1)
        /\ Dot(Ex2("cross", a, b, 1), a) = BZero /\ Dot(Ex2("cross", a, b, 1), b) = BZero
        /\ BAdd(Len2(Ex2("cross", a, b, 1)), M(Dot(a, b), Dot(a, b))) = M(Len2(a), Len2(b))
        /\ Ex2("subOf", Ex2("addOf", a, b, 1), b, 1) = a
        /\ Ex2("interpolate", a, b, 0) = a /\ Ex2("interpolate", a, b, 1) = b
        /\ Ex2("interpolateAt", a, b, 1) = a /\ Ex2("interpolateAt", a, b, 0) = b
        /\ Ex2("squaredDistance", a, b, 1) = Ex2("squaredDistance", b, a, 1)
        /\ Ex2("squaredDistance", a, b, 1) = Ex2("norm2", Ex2("subOf", a, b, 1), a, 1)
        /\ Ex2("det2", a, b, 1)[1] = Ex2("cross", a, b, 1)[3]
        /\ Ex2("scale2", a, b, 3) = Ex2("scale", Ex2("scale", a, b, 3), b, 2)
Output == (Emit /\ Len(hist) = Depth) => PrintT("OUT|" \o ToJson([s |-> last.start, h |-> hist]))
=============================================================================
