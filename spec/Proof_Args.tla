------------------------------ MODULE Proof_Args ------------------------------
(***************************************************************************)
(* StepWriter at every length: the scanner is inside a string, or inside of    *)
(* brackets, exactly when the writer is, and its cuts are where the writer's    *)
(* items end: the text between two cuts is the item that was meant, byte for    *)
(* byte.                                                                      *)
(***************************************************************************)
EXTENDS StepWriter, TLAPS

Lo(i) == IF i = 1 THEN 1 ELSE scan.cuts[i - 1] + 1
Types == /\ text \in Seq(Int) /\ cur \in Seq(Int) /\ items \in Seq(Seq(Int))
         /\ depth \in Nat /\ q \in BOOLEAN /\ fresh \in BOOLEAN
         /\ scan \in [q : BOOLEAN, depth : Int, from : Int, at : Int, cuts : Seq(Int), semi : Int, eq : Int, open : Int, close : Int]
Along == /\ scan.q = q /\ scan.depth = depth /\ scan.at = Len(text) + 1
         /\ Len(scan.cuts) = Len(items)
         /\ \A i \in 1..Len(items) : /\ Lo(i) \in 1..(Len(text) + 1) /\ scan.cuts[i] \in 1..Len(text) /\ Lo(i) =< scan.cuts[i]
                                     /\ items[i] = SubSeq(text, Lo(i), scan.cuts[i] - 1)
         /\ Lo(Len(items) + 1) \in 1..(Len(text) + 1)
         /\ cur = SubSeq(text, Lo(Len(items) + 1), Len(text))
Inv == Types /\ Along

Byte(c) == c \in {Letter, Blank1, High, Quote, Open, Close, Comma, Semi, Equal}
LEMMA Bytes == ASSUME NEW c, Byte(c) PROVE c \in Int
  BY DEF Byte, Letter, Blank1, High, Quote, Open, Close, Comma, Semi, Equal

LEMMA Grow ==
  ASSUME NEW t \in Seq(Int), NEW c \in Int, NEW a \in 1..(Len(t) + 1)
  PROVE  /\ Append(t, c) \in Seq(Int) /\ Len(Append(t, c)) = Len(t) + 1
         /\ \A b \in 0..Len(t) : SubSeq(Append(t, c), a, b) = SubSeq(t, a, b)
         /\ SubSeq(Append(t, c), a, Len(t) + 1) = Append(SubSeq(t, a, Len(t)), c)
<1>1. Append(t, c) \in Seq(Int) /\ Len(Append(t, c)) = Len(t) + 1 /\ Len(t) \in Nat
      /\ (\A k \in 1..Len(t) : Append(t, c)[k] = t[k]) /\ Append(t, c)[Len(t) + 1] = c
  OBVIOUS
<1>2. ASSUME NEW b \in 0..Len(t) PROVE SubSeq(Append(t, c), a, b) = SubSeq(t, a, b)
  BY <1>1
<1>3. SubSeq(Append(t, c), a, Len(t) + 1) = Append(SubSeq(t, a, Len(t)), c)
  BY <1>1
<1> QED BY <1>1, <1>2, <1>3

LEMMA Scanned ==
  ASSUME Inv, NEW c \in Int, Put(c)
  PROVE  /\ scan'.at = Len(text') + 1 /\ text' \in Seq(Int) /\ Len(text') = Len(text) + 1
         /\ scan' \in [q : BOOLEAN, depth : Int, from : Int, at : Int, cuts : Seq(Int), semi : Int, eq : Int, open : Int, close : Int]
         /\ scan'.q = (IF c = Quote THEN ~q ELSE q)
         /\ scan'.depth = (IF q THEN depth ELSE IF c = Open THEN depth + 1 ELSE IF c = Close THEN depth - 1 ELSE depth)
         /\ scan'.cuts = (IF ~q /\ c = Comma /\ depth = 0 THEN Append(scan.cuts, Len(text) + 1) ELSE scan.cuts)
  BY DEF Inv, Types, Along, Put, ScanStep, Quote, Open, Close, Comma, Semi, Equal, Marks

\* a byte that ends no item
LEMMA Stays ==
  ASSUME Inv, NEW c \in Int, Put(c), UNCHANGED items, cur' = Append(cur, c), scan'.cuts = scan.cuts,
         depth' \in Nat, q' \in BOOLEAN, fresh' \in BOOLEAN, scan'.q = q', scan'.depth = depth'
  PROVE  Inv'
<1>1. text' = Append(text, c) /\ text \in Seq(Int) /\ cur \in Seq(Int)
  BY DEF Inv, Types, Put
<1>2. Len(text') = Len(text) + 1 /\ text' \in Seq(Int)
  BY <1>1
<1>3. \A i \in 1..(Len(items) + 1) : Lo(i)' = Lo(i)
  BY DEF Lo
<1>4. Types'
  BY <1>1, Scanned DEF Inv, Types
<1>5. ASSUME NEW i \in 1..Len(items)
      PROVE  SubSeq(text', Lo(i), scan.cuts[i] - 1) = SubSeq(text, Lo(i), scan.cuts[i] - 1)
  <2>1. Lo(i) \in 1..(Len(text) + 1) /\ scan.cuts[i] - 1 \in 0..Len(text)
    BY DEF Inv, Types, Along
  <2> QED BY <1>1, <2>1, Grow
<1>6. cur' = SubSeq(text', Lo(Len(items) + 1), Len(text'))
  BY <1>1, <1>2, Grow DEF Inv, Along
<1>7. Along'
  BY <1>2, <1>3, <1>5, <1>6, Scanned DEF Inv, Types, Along
<1> QED BY <1>4, <1>7 DEF Inv

LEMMA Cuts == ASSUME Inv, EndItem PROVE Inv'
<1>1. Put(Comma) /\ items' = Append(items, cur) /\ cur' = <<>> /\ fresh' = TRUE /\ depth' = depth /\ q' = q /\ ~q /\ depth = 0
  BY DEF EndItem
<1>2. Comma \in Int /\ text' = Append(text, Comma) /\ text \in Seq(Int) /\ cur \in Seq(Int) /\ items \in Seq(Seq(Int)) /\ scan.cuts \in Seq(Int)
  BY <1>1 DEF Put, Comma, Inv, Types
<1>3. Len(text') = Len(text) + 1 /\ text' \in Seq(Int) /\ Len(text) \in Nat
  BY <1>2
<1>4. scan'.cuts = Append(scan.cuts, Len(text) + 1) /\ scan'.at = Len(text') + 1 /\ scan'.q = q' /\ scan'.depth = depth'
  BY <1>1, <1>2, Scanned DEF Quote, Open, Close, Comma
<1>5. Types'
  BY <1>1, <1>2, Scanned DEF Inv, Types
<1>6. Len(items') = Len(items) + 1 /\ Len(scan'.cuts) = Len(scan.cuts) + 1 /\ Len(scan.cuts) = Len(items) /\ Len(items) \in Nat
  BY <1>1, <1>2, <1>4 DEF Inv, Along
<1>7. (\A i \in 1..Len(items) : items'[i] = items[i] /\ scan'.cuts[i] = scan.cuts[i]) /\ items'[Len(items) + 1] = cur /\ scan'.cuts[Len(items) + 1] = Len(text) + 1
  BY <1>1, <1>2, <1>4, <1>6
<1>8. \A i \in 1..(Len(items) + 1) : Lo(i)' = Lo(i)
  BY <1>6, <1>7 DEF Lo
<1>9. (Lo(Len(items) + 1))' = Len(text') + 1
  BY <1>3, <1>6, <1>7 DEF Lo
<1>10. ASSUME NEW i \in 1..Len(items')
       PROVE  /\ (Lo(i) \in 1..(Len(text) + 1) /\ scan.cuts[i] \in 1..Len(text) /\ Lo(i) =< scan.cuts[i])'
              /\ (items[i] = SubSeq(text, Lo(i), scan.cuts[i] - 1))'
  <2>1. CASE i \in 1..Len(items)
    <3>1. Lo(i) \in 1..(Len(text) + 1) /\ scan.cuts[i] \in 1..Len(text) /\ Lo(i) =< scan.cuts[i] /\ items[i] = SubSeq(text, Lo(i), scan.cuts[i] - 1)
      BY <2>1 DEF Inv, Along
    <3>2. scan.cuts[i] - 1 \in 0..Len(text)
      BY <3>1, <1>3
    <3>3. SubSeq(text', Lo(i), scan.cuts[i] - 1) = SubSeq(text, Lo(i), scan.cuts[i] - 1)
      BY <3>1, <3>2, <1>2, Grow
    <3>4. Lo(i)' = Lo(i) /\ items'[i] = items[i] /\ scan'.cuts[i] = scan.cuts[i]
      BY <2>1, <1>6, <1>7, <1>8
    <3> QED BY <3>1, <3>3, <3>4, <1>3
  <2>2. CASE i = Len(items) + 1
    <3>1. Lo(i) \in 1..(Len(text) + 1) /\ cur = SubSeq(text, Lo(i), Len(text))
      BY <2>2 DEF Inv, Along
    <3>2. SubSeq(text', Lo(i), Len(text)) = SubSeq(text, Lo(i), Len(text))
      BY <3>1, <1>2, <1>3, Grow
    <3>3. Lo(i)' = Lo(i) /\ items'[i] = cur /\ scan'.cuts[i] = Len(text) + 1
      BY <2>2, <1>6, <1>7, <1>8
    <3> QED BY <3>1, <3>2, <3>3, <1>3
  <2> QED BY <2>1, <2>2, <1>6
<1>11. cur' = SubSeq(text', Len(text') + 1, Len(text'))
  BY <1>1, <1>3
<1>12. Along'
  BY <1>3, <1>4, <1>6, <1>9, <1>10, <1>11 DEF Along
<1> QED BY <1>5, <1>12 DEF Inv

THEOREM First == Init => Inv
<1> SUFFICES ASSUME Init PROVE Inv
  OBVIOUS
<1>1. text = <<>> /\ items = <<>> /\ cur = <<>> /\ depth = 0 /\ q = FALSE /\ fresh = TRUE /\ scan = ScanInit
  BY DEF Init
<1>2. Types
  BY <1>1 DEF Types, ScanInit
<1>3. Along
  BY <1>1 DEF Along, Lo, ScanInit
<1> QED BY <1>2, <1>3 DEF Inv

THEOREM Inductive == Inv /\ [Next]_vars => Inv'
<1> SUFFICES ASSUME Inv, [Next]_vars PROVE Inv'
  OBVIOUS
<1>0. depth \in Nat /\ q \in BOOLEAN /\ fresh \in BOOLEAN
  BY DEF Inv, Types
<1>1. CASE StringByte
  <2>1. PICK c \in InString : Put(c) /\ cur' = Append(cur, c)
    BY <1>1 DEF StringByte
  <2>2. c \in Int /\ c # Quote /\ q /\ UNCHANGED <<items, depth, q, fresh>>
    BY <1>1 DEF StringByte, InString, Letter, Blank1, Comma, Open, Close, Semi, High, Quote
  <2>3. scan'.cuts = scan.cuts /\ scan'.q = q' /\ scan'.depth = depth'
    BY <2>1, <2>2, Scanned
  <2> QED BY <2>1, <2>2, <2>3, <1>0, Stays
<1>2. CASE QuoteByte
  <2>1. Put(Quote) /\ cur' = Append(cur, Quote) /\ Quote \in Int /\ q' = ~q /\ fresh' = FALSE /\ UNCHANGED <<items, depth>>
    BY <1>2 DEF QuoteByte, Quote
  <2>2. scan'.cuts = scan.cuts /\ scan'.q = q' /\ scan'.depth = depth'
    BY <2>1, Scanned DEF Quote, Open, Close, Comma
  <2> QED BY <2>1, <2>2, <1>0, Stays
<1>3. CASE Plain
  <2>1. PICK c \in Outside : Put(c) /\ cur' = Append(cur, c) /\ fresh' = (fresh /\ IsBlank(c))
    BY <1>3 DEF Plain
  <2>2. c \in Int /\ c # Quote /\ c # Open /\ c # Close /\ c # Comma /\ UNCHANGED <<items, depth, q>>
    BY <1>3 DEF Plain, Outside, Letter, Blank1, Comma, Open, Close, Quote
  <2>3. scan'.cuts = scan.cuts /\ scan'.q = q' /\ scan'.depth = depth'
    BY <2>1, <2>2, Scanned
  <2> QED BY <2>1, <2>2, <2>3, <1>0, Stays DEF IsBlank
<1>4. CASE OpenB
  <2>1. Put(Open) /\ cur' = Append(cur, Open) /\ Open \in Int /\ depth' = depth + 1 /\ ~q /\ UNCHANGED <<items, q, fresh>>
    BY <1>4 DEF OpenB, Open
  <2>2. scan'.cuts = scan.cuts /\ scan'.q = q' /\ scan'.depth = depth'
    BY <2>1, Scanned DEF Quote, Open, Close, Comma
  <2> QED BY <2>1, <2>2, <1>0, Stays
<1>5. CASE CloseB
  <2>1. Put(Close) /\ cur' = Append(cur, Close) /\ Close \in Int /\ depth > 0 /\ depth' = depth - 1 /\ ~q /\ UNCHANGED <<items, q, fresh>>
    BY <1>5 DEF CloseB, Close
  <2>2. scan'.cuts = scan.cuts /\ scan'.q = q' /\ scan'.depth = depth'
    BY <2>1, Scanned DEF Quote, Open, Close, Comma
  <2>3. depth' \in Nat
    BY <2>1, <1>0
  <2> QED BY <2>1, <2>2, <2>3, <1>0, Stays
<1>6. CASE InnerComma
  <2>1. Put(Comma) /\ cur' = Append(cur, Comma) /\ Comma \in Int /\ depth > 0 /\ fresh' = TRUE /\ ~q /\ UNCHANGED <<items, depth, q>>
    BY <1>6 DEF InnerComma, Comma
  <2>2. scan'.cuts = scan.cuts /\ scan'.q = q' /\ scan'.depth = depth'
    BY <2>1, <1>0, Scanned DEF Quote, Open, Close, Comma
  <2> QED BY <2>1, <2>2, <1>0, Stays
<1>7. CASE EndItem
  BY <1>7, Cuts
<1>8. CASE UNCHANGED vars
  <2>1. UNCHANGED <<text, items, cur, depth, q, fresh, scan>>
    BY <1>8 DEF vars
  <2>2. \A i : Lo(i)' = Lo(i)
    BY <2>1 DEF Lo
  <2> QED BY <2>1, <2>2 DEF Inv, Types, Along
<1> QED BY <1>1, <1>2, <1>3, <1>4, <1>5, <1>6, <1>7, <1>8 DEF Next
=============================================================================
