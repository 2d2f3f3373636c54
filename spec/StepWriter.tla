----------------------------- MODULE StepWriter -----------------------------
(***************************************************************************)
(* A writer of well formed argument texts: it puts one byte at a time and      *)
(* remembers the items it means, bracket by bracket; the scanner of StepScan    *)
(* runs alongside. MC_StepArgs walks it up to a length, Proof_Args proves for   *)
(* every length that the scanner's cuts fall where the writer's items end.      *)
(***************************************************************************)
EXTENDS StepScan
Letter == 97  Blank1 == 32  High == 233
InString == {Letter, Blank1, Comma, Open, Close, Semi, High}
Outside == {Letter, Blank1}

VARIABLES text, items, cur, depth, q, fresh, scan
vars == <<text, items, cur, depth, q, fresh, scan>>
\* fresh: an item must start here (so an opening bracket may stand here)

Init == text = <<>> /\ items = <<>> /\ cur = <<>> /\ depth = 0 /\ q = FALSE /\ fresh = TRUE /\ scan = ScanInit

Put(c) == text' = Append(text, c) /\ scan' = ScanStep(scan, c)
StringByte == /\ q /\ \E c \in InString : Put(c) /\ cur' = Append(cur, c)
              /\ UNCHANGED <<items, depth, q, fresh>>
QuoteByte == /\ Put(Quote) /\ q' = ~q /\ cur' = Append(cur, Quote) /\ fresh' = FALSE
             /\ UNCHANGED <<items, depth>>
Plain == /\ ~q /\ \E c \in Outside : Put(c) /\ cur' = Append(cur, c) /\ fresh' = (fresh /\ IsBlank(c))
         /\ UNCHANGED <<items, depth, q>>
OpenB == /\ ~q /\ fresh /\ Put(Open) /\ cur' = Append(cur, Open) /\ depth' = depth + 1
         /\ UNCHANGED <<items, q, fresh>>
CloseB == /\ ~q /\ ~fresh /\ depth > 0 /\ Put(Close) /\ cur' = Append(cur, Close) /\ depth' = depth - 1
          /\ UNCHANGED <<items, q, fresh>>
InnerComma == /\ ~q /\ ~fresh /\ depth > 0 /\ Put(Comma) /\ cur' = Append(cur, Comma) /\ fresh' = TRUE
              /\ UNCHANGED <<items, depth, q>>
EndItem == /\ ~q /\ ~fresh /\ depth = 0 /\ Put(Comma)
           /\ items' = Append(items, cur) /\ cur' = <<>> /\ fresh' = TRUE
           /\ UNCHANGED <<depth, q>>
Next == StringByte \/ QuoteByte \/ Plain \/ OpenB \/ CloseB \/ InnerComma \/ EndItem


Finished == depth = 0 /\ ~q /\ ~fresh
=============================================================================
