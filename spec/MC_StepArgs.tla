----------------------------- MODULE MC_StepArgs -----------------------------
(***************************************************************************)
(* A writer produces every well formed argument text up to MaxLen bytes,   *)
(* byte by byte, remembering the items it means; the scanner of StepText,  *)
(* run alongside, must find exactly these items.                           *)
(***************************************************************************)
EXTENDS StepWriter, StepText, Json
CONSTANTS MaxLen, Emit

MapTrim(l) == [i \in 1..Len(l) |-> Trim(l[i])]
Walk == Len(text) < MaxLen /\ Next
Meant == MapTrim(Append(items, cur))
Agree == /\ scan = Scan(text)
         /\ scan.depth = depth /\ scan.q = q
         /\ Finished => /\ Items(text) = Meant
                        /\ ListOf(<<Open>> \o text \o <<Close>>) = Meant
                        /\ MatrixOf(<<Open, Open>> \o text \o <<Close, Close>>) = <<Meant>>
Output == (Finished /\ Emit) => PrintT("OUT|" \o ToJson([text |-> text, items |-> Meant]))
=============================================================================
