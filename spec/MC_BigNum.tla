------------------------------ MODULE MC_BigNum ------------------------------
(* Agreement of the BigInteger overrides with the TLA+ definitions of        *)
(* BigNum.tla, and ring laws, over a walk that grows the numbers.            *)
EXTENDS BigNum, TLC
VARIABLES a, b, n
Seeds == {-32769, -32768, -32767, -1000, -1, 0, 1, 7, 32767, 32768, 65537, 2147483647, -2147483647}
Init == a \in {PInt(x) : x \in Seeds} /\ b \in {PInt(x) : x \in Seeds} /\ n = 0
Next == /\ n < 5 /\ n' = n + 1
        /\ \/ a' = PMul(a, b) /\ b' = PSub(b, a)
           \/ a' = PAdd(a, PInt(32768)) /\ b' = PMul(b, PInt(-32767))
Agree == /\ BMul(a, b) = PMul(a, b) /\ BAdd(a, b) = PAdd(a, b) /\ BSub(a, b) = PSub(a, b)
         /\ BCmp(a, b) = PCmp(a, b) /\ BNeg(a) = PNeg(a)
         /\ BDot(<<a, b, a>>, <<b, b, a>>) = PDot(<<a, b, a>>, <<b, b, a>>)
         /\ BSum(<<a, b, a>>) = PSum(<<a, b, a>>) /\ BSum(<<>>) = <<0>>
         /\ BVSub(<<a, b>>, <<b, a>>) = PVSub(<<a, b>>, <<b, a>>)
         /\ BDet(<<<<a>>>>) = a
         /\ n < 3 => /\ BDet(<<<<a, b>>, <<b, a>>>>) = PDet(<<<<a, b>>, <<b, a>>>>)
                     /\ LET m == <<<<a, b, BInt(n)>>, <<b, a, a>>, <<BInt(7), b, a>>>> IN BDet(m) = PDet(m)
                     /\ LET m == <<<<a, b, BInt(n), a>>, <<b, a, a, BInt(3)>>, <<BInt(7), b, a, b>>, <<b, BInt(-2), a, BInt(1)>>>> IN BDet(m) = PDet(m)
         /\ BPow2(n * 13) = PPow2(n * 13)
         /\ \A x \in Seeds : BInt(x) = PInt(x)
         /\ BIs(a) /\ BIs(b) /\ BIs(BMul(a, b))
Laws == /\ PMul(a, b) = PMul(b, a) /\ PSub(PAdd(a, b), b) = a
        /\ PMul(a, PAdd(b, BOne)) = PAdd(PMul(a, b), a)
        /\ (PMul(a, b)[1] = 0) = (a[1] = 0 \/ b[1] = 0)
=============================================================================
