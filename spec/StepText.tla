------------------------------ MODULE StepText ------------------------------
(***************************************************************************)
(* The text level of STEP part 21 files.  Texts are sequences of bytes.    *)
(***************************************************************************)
EXTENDS StepScan, SequencesExt, TLC

\* first index >= i whose byte is not blank, Len+1 when there is none
RECURSIVE SkipBlanks(_, _)
SkipBlanks(t, i) == IF i <= Len(t) /\ IsBlank(t[i]) THEN SkipBlanks(t, i + 1) ELSE i
RECURSIVE SkipBack(_, _)
SkipBack(t, i) == IF i >= 1 /\ IsBlank(t[i]) THEN SkipBack(t, i - 1) ELSE i
Trim(t) == SubSeq(t, SkipBlanks(t, 1), SkipBack(t, Len(t)))
NoBlanks(t) == SelectSeq(t, LAMBDA c : ~IsBlank(c))

StartsWith(t, c) == LET i == SkipBlanks(t, 1) IN i <= Len(t) /\ t[i] = c

ScanOn(s, t) == FoldLeft(ScanStep, s, t)      \* scanning goes on with more text
Scan(t) == ScanOn(ScanInit, t)

\* top-level items of a comma separated text
Items(t) ==
  LET cuts == Scan(t).cuts
      n == Len(cuts) + 1
      lo(i) == IF i = 1 THEN 1 ELSE cuts[i-1] + 1
      hi(i) == IF i = n THEN Len(t) ELSE cuts[i] - 1
  IN TLCEval([ i \in 1..n |-> Trim(SubSeq(t, lo(i), hi(i))) ])

\* "( ... )" without its outer parentheses
Inner(t) == LET u == Trim(t) IN SubSeq(u, 2, Len(u) - 1)
ListOf(t) == Items(Inner(t))
MatrixOf(t) == LET rows == ListOf(t) IN TLCEval([ i \in 1..Len(rows) |-> ListOf(rows[i]) ])

\* one complete instance "#n = KEYWORD ( ... ) ;"
InstanceAt(t, s) ==       \* s = Scan(t)
  IF s.eq = 0 \/ s.open = 0 \/ s.close = 0 THEN [name |-> <<>>, type |-> <<>>, args |-> <<>>] ELSE
     [ name |-> Trim(SubSeq(t, 1, s.eq - 1)),
       type |-> NoBlanks(SubSeq(t, s.eq + 1, s.open - 1)),
       args |-> Items(SubSeq(t, s.open + 1, s.close - 1)) ]
InstanceOf(t) == InstanceAt(t, Scan(t))
\* is the text one instance of the supported form?
IsInstanceAt(t, s) ==
  s.eq > 1 /\ s.open > s.eq /\ s.close > s.open /\ s.semi > s.close /\ StartsWith(t, Hash)

\* a table is a set of [name, type, args] with distinct names
TableOf(insts) ==          \* sequence of instances: the last one of a name wins
  { insts[i] : i \in { j \in 1..Len(insts) : \A k \in j+1..Len(insts) : insts[k].name # insts[j].name } }
=============================================================================
