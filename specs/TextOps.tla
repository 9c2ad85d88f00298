------------------------------ MODULE TextOps ------------------------------
(* Text as sequences of character codes.                                     *)
EXTENDS Integers, Sequences
RECURSIVE DecNat(_)
DecNat(n) == IF n < 10 THEN <<48 + n>> ELSE Append(DecNat(n \div 10), 48 + (n % 10))
Dec(n) == IF n < 0 THEN <<45>> \o DecNat(0 - n) ELSE DecNat(n)
RECURSIVE PadNat(_, _)
PadNat(n, w) == IF w = 0 THEN <<>> ELSE Append(PadNat(n \div 10, w - 1), 48 + (n % 10))
RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>>
           ELSE IF Len(q) = 1 THEN q[1]
           ELSE LET m == Len(q) \div 2 IN Flat(SubSeq(q, 1, m)) \o Flat(SubSeq(q, m + 1, Len(q)))
JoinText(q, sep) == Flat([i \in 1..Len(q) |-> IF i = 1 THEN q[i] ELSE sep \o q[i]])
CommaSp == <<44, 32>>
ColonSp == <<58, 32>>
=============================================================================
