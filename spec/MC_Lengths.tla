----------------------------- MODULE MC_Lengths -----------------------------
(***************************************************************************)
(* The clauses for lengths and normalised vectors, on whole-number vectors     *)
(* whose length is a whole number: they admit the true root and the true        *)
(* normalised vector and none of their neighbours, and tell unit vectors.       *)
(***************************************************************************)
EXTENDS Vec, Integers, Sequences
CONSTANT N
VARIABLES v, l
Init == /\ v \in ((-N)..N) \X ((-N)..N) \X ((-N)..N) /\ l \in 0..(2 * N)
        /\ v[1] * v[1] + v[2] * v[2] + v[3] * v[3] = l * l
Next == UNCHANGED <<v, l>>
B3(x) == <<BInt(x[1]), BInt(x[2]), BInt(x[3])>>
\* numbers count 1 / l: the normalised vector of v is v itself, and One is l
One == BInt(l)
Root1 == Root(One, Len2(B3(v)), 49) /\ (l > 0 => ~Root(BInt(l - 1), Len2(B3(v)), 49) /\ ~Root(BInt(l + 1), Len2(B3(v)), 49) /\ ~Root(BInt(-l), Len2(B3(v)), 49))
Unit1 == l > 0 => Unit(B3(v), B3(v), One, 48)
Unit2 == l > 0 => \A w \in ((-N)..N) \X ((-N)..N) \X ((-N)..N) : w # v => ~Unit(B3(v), B3(w), One, 48)
Test == l > 0 => /\ UnitTest(B3(v), One) = "yes"
                 /\ UnitTest([B3(v) EXCEPT ![1] = BAdd(@, BOne)], One) = IF 2 * v[1] + 1 = 0 THEN "yes" ELSE "no"
=============================================================================
