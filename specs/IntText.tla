------------------------------ MODULE IntText ------------------------------
(* C27: the text of a value, and the value of a text.  The last text produced  *)
(* is kept, so that histories can parse what the code itself printed.          *)
EXTENDS SeqOps, BigInt
VARIABLES last, res
tvars == <<last, res>>
\* types 0-11 as in FixedInt; 14 boolean, 15 char, 16 byte, 17 string
Name(t) == CASE t = 0 -> <<73, 56>> [] t = 1 -> <<73, 49, 54>> [] t = 2 -> <<73, 51, 50>> [] t = 3 -> <<73, 54, 52>>
             [] t = 4 -> <<73, 83, 105, 122, 101>> [] t = 5 -> <<85, 56>> [] t = 6 -> <<85, 49, 54>> [] t = 7 -> <<85, 51, 50>>
             [] t = 8 -> <<85, 54, 52>> [] t = 9 -> <<85, 83, 105, 122, 101>> [] t = 10 -> <<73, 49, 50, 56>> [] t = 11 -> <<85, 49, 50, 56>>
             [] t = 14 -> <<66, 111, 111, 108>> [] t = 15 -> <<67, 104, 97, 114>> [] t = 16 -> <<66, 121, 116, 101>> [] t = 17 -> <<83, 116, 114, 105, 110, 103>>
TrueText == <<116, 114, 117, 101>>
FalseText == <<102, 97, 108, 115, 101>>
\* t is the text of the value encoded in a (from its second place on)
TextOf(ty, a, t) ==
  CASE ty \in 0..11 -> IsText(t, Num(a, 2))
    [] ty = 14 -> t = (IF a[2] = 1 THEN TrueText ELSE FalseText)
    [] ty \in {15, 16} -> IsText(t, Z(a[2]))
    [] ty = 17 -> t = Tail(a)
\* the grammar: an optional sign (minus only where signed), then digits
Signed(t) == t # <<>> /\ t[1] \in {43, 45}
Digits(t) == IF Signed(t) THEN Tail(t) ELSE t
WellFormed(t, sg) == /\ Digits(t) # <<>> /\ \A i \in 1..Len(Digits(t)) : IsDigit(Digits(t)[i])
                     /\ (Signed(t) /\ t[1] = 45 => sg)
Strip(t) == IF \A i \in 1..Len(t) : t[i] = 48 THEN <<48>> ELSE SubSeq(t, CHOOSE i \in 1..Len(t) : t[i] # 48 /\ \A j \in 1..(i - 1) : t[j] = 48, Len(t))
\* beyond 60 digits nothing is in range
Value(t) == Big(IF Signed(t) /\ t[1] = 45 THEN 1 ELSE 0, HornerN(Strip(Digits(t)), 1, <<>>))
Parses(t, sg) == WellFormed(t, sg) /\ Len(Strip(Digits(t))) <= 60 /\ InRange(Value(t), 64, sg)
Parse(t, sg) == res' = (IF Parses(t, sg) THEN R("val", Log12(Value(t))) ELSE R("err", <<>>)) /\ UNCHANGED last
Init == last = <<>> /\ res = Unit
Do(e) ==
  LET a == e.a IN
  CASE e.op = "new" -> last' = <<>> /\ res' = Unit
    [] e.op = "text" -> TextOf(a[1], a, e.v) /\ last' = e.v /\ res' = SeqR(e.v)
    [] e.op = "display" -> TextOf(a[1], a, e.v) /\ last' = e.v /\ res' = SeqR(e.v)
    [] e.op = "debug" -> LET n == Name(a[1]) k == Len(n) IN
         /\ Len(e.v) > k + 2 \/ a[1] = 17
         /\ Len(e.v) >= k + 2 /\ SubSeq(e.v, 1, k + 1) = n \o <<40>> /\ e.v[Len(e.v)] = 41
         /\ TextOf(a[1], a, SubSeq(e.v, k + 2, Len(e.v) - 1))
         /\ last' = SubSeq(e.v, k + 2, Len(e.v) - 1) /\ res' = SeqR(e.v)
    [] e.op = "parsei" -> Parse(a, TRUE)
    [] e.op = "parseu" -> Parse(a, FALSE)
    \* what was printed last
    [] e.op = "backi" -> Parse(last, TRUE)
    [] e.op = "backu" -> Parse(last, FALSE)
=============================================================================
