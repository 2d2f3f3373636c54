------------------------------ MODULE StepScan ------------------------------
(* The bytes that matter in a STEP part 21 file, and the scanner over them.   *)
EXTENDS Integers, Sequences

Blanks == {32, 9}
Hash == 35   Quote == 39   Open == 40   Close == 41
Comma == 44  Semi == 59    Equal == 61

Marks == {Open, Close, Comma, Semi, Equal}

IsBlank(c) == c \in Blanks

(***************************************************************************)
(* The scanner: one step per byte.  A quote toggles "inside a string" (a   *)
(* doubled quote leaves and re-enters it); brackets and commas only count  *)
(* outside of strings.                                                     *)
(***************************************************************************)
ScanInit == [q |-> FALSE, depth |-> 0, from |-> 1, at |-> 1, cuts |-> <<>>, semi |-> 0, eq |-> 0, open |-> 0, close |-> 0]
ScanStep(s, c) ==
  IF c = Quote THEN [s EXCEPT !.q = ~@, !.at = @ + 1]
  ELSE IF s.q \/ c \notin Marks THEN [s EXCEPT !.at = @ + 1]
  ELSE IF c = Open THEN [s EXCEPT !.depth = @ + 1, !.at = @ + 1, !.open = IF @ = 0 THEN s.at ELSE @]
  ELSE IF c = Close THEN [s EXCEPT !.depth = @ - 1, !.at = @ + 1, !.close = IF @ = 0 /\ s.depth = 1 THEN s.at ELSE @]
  ELSE IF c = Comma THEN [s EXCEPT !.at = @ + 1, !.cuts = IF s.depth = 0 THEN Append(@, s.at) ELSE @]
  ELSE IF c = Semi THEN [s EXCEPT !.at = @ + 1, !.semi = IF @ = 0 THEN s.at ELSE @]
  ELSE [s EXCEPT !.at = @ + 1, !.eq = IF @ = 0 THEN s.at ELSE @]
=============================================================================
