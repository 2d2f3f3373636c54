----------------------------- MODULE Trace_Step -----------------------------
(* Recorded runs of the STEP reader against StepLex/StepText (S01, S02).     *)
EXTENDS TraceLoop, StepLex, FiniteSets

RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))

AsSet(tab) == { tab[i] : i \in 1..Len(tab) }
\* S01. r.lines: physical lines without their ends; r.table: what was read
WhyLex(r) ==
  IF r.expect = "failure" THEN Need("failure not reported", r.status = "panic")
  ELSE IF r.status # "ok" THEN {r.status}
  ELSE LET end == MeaningEnd(r.lines)
           m == TableOf(end.insts)
           got == AsSet(r.table)
       IN Need("outside of the domain", end.ok /\ end.pending = <<>>)
          \cup Need("lexer machine disagrees with the meaning", LexEnd(FoldLeft(LexLine, LexInit, r.lines)) = m)
          \cup Need("duplicate names", Cardinality({r.table[i].name : i \in 1..Len(r.table)}) = Len(r.table))
          \cup Need("names", {e.name : e \in got} = {e.name : e \in m})
          \cup Need("keywords", {<<e.name, e.type>> : e \in got} = {<<e.name, e.type>> : e \in m})
          \cup Need("instances", got = m)
\* S02. r.text: an argument text; r.items: its items as split by the code
WhyItems(r) ==
  IF r.status # "ok" THEN {r.status}
  ELSE IF r.kind = "list" THEN Need("items of a list", r.items = ListOf(r.text))
  ELSE IF r.kind = "matrix" THEN Need("rows of a matrix", r.items = MatrixOf(r.text))
  ELSE Need("arguments", r.items = Items(SubSeq(r.text, 1, Scan(<<Open>> \o r.text).close - 2)))
\* whole instance read from a file: r.texts are the items as generated
WhyInst(r) ==
  IF r.status # "ok" THEN {r.status}
  ELSE LET m == Meaning(r.lines)
       IN Need("one instance", Len(r.table) = 1)
          \cup Need("arguments", AsSet(r.table) = m)
          \cup Need("generator and scanner disagree", {e.args : e \in m} = {r.items})
=============================================================================
