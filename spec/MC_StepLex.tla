----------------------------- MODULE MC_StepLex -----------------------------
(***************************************************************************)
(* A writer lays out instances over physical lines in every way that uses  *)
(* at most Budget blanks/line breaks; the lexer machine reads each line as *)
(* soon as it is complete.  When the file ends, the lexer's table, the     *)
(* meaning of the lines and the instances the writer meant must agree.     *)
(* Every finished file is printed for replay into the real lexer.          *)
(***************************************************************************)
EXTENDS StepLex, TLC, Json, FiniteSets

CONSTANTS Budget, Emit

\* instances: name, keyword, argument tokens (already split at token boundaries)
N1 == <<35,49>>  N2 == <<35,50,53>>
KA == <<65>>   KB == <<66,95,67>>
One == <<49>>  Ref == <<35,50,53>>  Star == <<42>>
Tricky == <<39,61,59,39,39,35,49,61,40,44,39>>       \* '=;''#1=(,'
Empty == <<39,39>>
C == <<44>>  O == <<40>>  X == <<41>>
Inst(n, k, toks, args) == [name |-> n, type |-> k, toks |-> <<n, <<61>>, k, O>> \o toks \o <<X, <<59>>>>, args |-> args]
I1 == Inst(N1, KA, <<One>>, <<One>>)
I2 == Inst(N2, KB, <<Tricky, C, O, Ref, C, One, X>>, <<Tricky, <<40,35,50,53,44,49,41>>>>)
I3 == Inst(N1, KB, <<Empty, C, Star>>, <<Empty, Star>>)
I4 == Inst(N2, KA, <<Ref, C, Tricky>>, <<Ref, Tricky>>)
Files == { <<>>, <<I1>>, <<I2>>, <<I3>>, <<I1, I2>>, <<I2, I3>>, <<I1, I3>>, <<I4, I1, I4>>, <<I1, I4, I3>> }
HeadLines == { <<>>,
  << <<73,83,79,59>>, <<72,69,65,68,69,82,59>>, <<70,40,39,35,49,61,39,41,59>>, <<>>, <<68,65,84,65,59>> >> }
TailLines == { <<>>, << <<>>, <<69,78,68,83,69,67,59>>, <<69,78,68,40,39,61,39,41>> >> }

VARIABLES file, head, k, t, line, lines, budget, lex, phase
vars == <<file, head, k, t, line, lines, budget, lex, phase>>

Init == /\ file \in Files /\ head \in HeadLines
        /\ k = 1 /\ t = 1 /\ line = <<>> /\ budget = Budget /\ phase = "write"
        /\ lines = head /\ lex = FoldLeft(LexLine, LexInit, head)

Feed(l) == lines' = Append(lines, l) /\ lex' = LexLine(lex, l)

\* in front of a token (or at the very end of an instance)
Blank == /\ phase = "write" /\ budget > 0 /\ k <= Len(file)
         /\ \E c \in Blanks : line' = Append(line, c)
         /\ budget' = budget - 1
         /\ UNCHANGED <<file, head, k, t, lines, lex, phase>>
Break == /\ phase = "write" /\ budget > 0 /\ k <= Len(file)
         /\ Feed(line) /\ line' = <<>>
         /\ budget' = budget - 1
         /\ UNCHANGED <<file, head, k, t, phase>>
Token == /\ phase = "write" /\ k <= Len(file) /\ t <= Len(file[k].toks)
         /\ line' = line \o file[k].toks[t] /\ t' = t + 1
         /\ UNCHANGED <<file, head, k, lines, budget, lex, phase>>
EndInst == /\ phase = "write" /\ k <= Len(file) /\ t > Len(file[k].toks)
           /\ Feed(line) /\ line' = <<>> /\ k' = k + 1 /\ t' = 1
           /\ UNCHANGED <<file, head, budget, phase>>
EndFile == /\ phase = "write" /\ k > Len(file)
           /\ \E tl \in TailLines :
                /\ lines' = lines \o tl
                /\ lex' = FoldLeft(LexLine, lex, tl)
           /\ phase' = "done"
           /\ UNCHANGED <<file, head, k, t, line, budget>>
Next == Blank \/ Break \/ Token \/ EndInst \/ EndFile

Meant == TableOf([i \in 1..Len(file) |-> [name |-> file[i].name, type |-> file[i].type, args |-> file[i].args]])

\* blanks the writer put inside a nested list stay in the argument's text
Bare(tab) == { [e EXCEPT !.args = [i \in 1..Len(@) |-> NoBlanks(@[i])]] : e \in tab }
Agree == phase = "done" =>
  /\ InDomain(lines)
  /\ Bare(Meaning(lines)) = Meant
  /\ LexEnd(lex) = Meaning(lines)
Output == (phase = "done" /\ Emit) => PrintT("OUT|" \o ToJson([lines |-> lines, table |-> Meaning(lines)]))
\* names already read never disappear
Grows == \A i \in 1..Len(lex.insts) : lex.insts[i].name \in {N1, N2}
=============================================================================
