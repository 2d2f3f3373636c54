------------------------------- MODULE StepLex -------------------------------
(***************************************************************************)
(* Reading a STEP file: the state machine that turns physical lines into   *)
(* instances.  One action per line, as in step/lex.go Lexer.Lex.           *)
(*   pending   text of the instance being assembled ("symbolText")         *)
(*   insts     instances completed so far, in file order                   *)
(***************************************************************************)
EXTENDS StepText

\* ------------------------------------------------ what a file means (S01)
\* pending is empty or holds an instance that is not terminated yet, scan is
\* the scanner's state at its end
MeaningInit == [pending |-> <<>>, scan |-> ScanInit, insts |-> <<>>, ok |-> TRUE]
MeaningLine(st, line) ==
  IF st.pending = <<>> /\ ~StartsWith(line, Hash) THEN st          \* outside of instances
  ELSE LET text == st.pending \o line
           s == ScanOn(st.scan, line)
       IN IF s.semi = 0 THEN [st EXCEPT !.pending = text, !.scan = s]
          ELSE [ pending |-> <<>>, scan |-> ScanInit,
                 insts |-> Append(st.insts, InstanceAt(text, s)),
                 \* the supported form, nothing behind it
                 ok |-> st.ok /\ IsInstanceAt(text, s) /\ Trim(SubSeq(text, s.semi + 1, Len(text))) = <<>> ]
MeaningEnd(lines) == FoldLeft(MeaningLine, MeaningInit, lines)
Meaning(lines) == TableOf(MeaningEnd(lines).insts)
\* the domain of S01: a file all of whose instances have the supported form
InDomain(lines) == LET e == MeaningEnd(lines) IN e.ok /\ e.pending = <<>>

\* ------------------------------------- how the lexer does it (lex.go Lex)
\* The lexer keeps the text of the last instance until the next one starts.
\* (even: the pending text has an even number of quotes)
Quotes(t) == FoldLeft(LAMBDA n, c : IF c = Quote THEN n + 1 ELSE n, 0, t)
Complete(st) == LET i == SkipBack(st.pending, Len(st.pending))
                IN st.pending = <<>> \/ (st.even /\ i > 0 /\ st.pending[i] = Semi)
Digit(c) == c \in 48..57
RECURSIVE SkipDigits(_, _)
SkipDigits(t, i) == IF i <= Len(t) /\ Digit(t[i]) THEN SkipDigits(t, i + 1) ELSE i
\* ^\s*#\d+\s*=
LooksLikeDefinition(t) ==
  LET i == SkipBlanks(t, 1)
      j == SkipDigits(t, i + 1)
      k == SkipBlanks(t, j)
  IN i <= Len(t) /\ t[i] = Hash /\ j > i + 1 /\ k <= Len(t) /\ t[k] = Equal
StartsDefinition(line, st) ==
  IF Complete(st) THEN StartsWith(line, Hash)
  ELSE LooksLikeDefinition(line) /\ st.even
LexAdd(insts, text) == IF text = <<>> THEN insts ELSE Append(insts, InstanceOf(text))
LexInit == [pending |-> <<>>, even |-> TRUE, insts |-> <<>>]
LexLine(st, line) ==
  IF line = <<>> THEN st
  ELSE IF StartsDefinition(line, st)
       THEN [pending |-> line, even |-> Quotes(line) % 2 = 0, insts |-> LexAdd(st.insts, st.pending)]
  ELSE IF ~Complete(st) THEN [st EXCEPT !.pending = @ \o line, !.even = (@ = (Quotes(line) % 2 = 0))]
  ELSE st
LexEnd(st) == TableOf(LexAdd(st.insts, st.pending))
=============================================================================
