----------------------------- MODULE MC_IntText -----------------------------
(* Parsing: every string up to MaxChars over a telling alphabet, and the bounds   *)
(* of the types with every kind of decoration.  Printing: the bounds of every   *)
(* type.  Law: canonical texts parse to their value; every number has one.      *)
EXTENDS IntText, TLC, Json
CONSTANTS Alphabet, MaxChars
VARIABLES hist
mcv == <<tvars, hist>>
C(op, a) == [op |-> op, a |-> a]
Short == UNION {[1..n -> Alphabet] : n \in 0..MaxChars}
D19 == <<57, 50, 50, 51, 51, 55, 50, 48, 51, 54, 56, 53, 52, 55, 55, 53, 56, 48>>        \* 922337203685477580
D20 == <<49, 56, 52, 52, 54, 55, 52, 52, 48, 55, 51, 55, 48, 57, 53, 53, 49, 54, 49>>    \* 1844674407370955161
Core == {Append(D19, d) : d \in 48..57} \cup {Append(D20, d) : d \in 48..57}
        \cup {D20 \o <<53, 48>>, D19, D20, <<57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57>>}
Long == UNION {{c, <<43>> \o c, <<45>> \o c, <<48, 48>> \o c, <<45, 48>> \o c, <<32>> \o c, c \o <<32>>, c \o <<46>>, <<45, 45>> \o c, <<43, 45>> \o c, <<43, 43>> \o c, c \o <<101, 48>>} : c \in Core}
Wdt(t) == CASE t \in {0, 5} -> 8 [] t \in {1, 6} -> 16 [] t \in {2, 7} -> 32 [] t \in {3, 4, 8, 9} -> 64 [] OTHER -> 128
Sgt(t) == t \in 0..4 \cup {10}
\* words of 64 bits
Halves == {Zero, Z(1), Pow2(31), Pow2(62), SubI(Pow2(63), Z(1)), Pow2(63), SubI(Pow2(64), Z(1)), SubI(Pow2(64), Pow2(32))}
Nums(t) == {n \in UNION {{AddI(c, Z(d)) : d \in -2..2} : c \in {Zero, MinI(Wdt(t), Sgt(t)), MaxI(Wdt(t), Sgt(t)), Z(10), Z(-10), Z(100), Z(1000), Pow2(31), Pow2(32), Pow2(63), NegI(Pow2(63)), Pow2(64), NegI(Pow2(64))}} :
               InRange(n, Wdt(t), Sgt(t))}
          \cup (IF Wdt(t) < 128 THEN {} ELSE {Wrap(AddI(MulI(h, Pow2(64)), k), 128, Sgt(t)) : h \in Halves, k \in Halves})
Texts == UNION {{<<C(op, <<t>> \o Log12(n))>> : n \in Nums(t), op \in {"text", "display", "debug"}} : t \in 0..11}
\* the other kinds: every byte, both booleans, characters, strings with marks
Others == {<<16, b>> : b \in 0..255} \cup {<<14, b>> : b \in {0, 1}}
          \cup {<<15, c>> : c \in (-12..300) \cup {65535, 65536, 1114111, 1114112, 2147483647, -2147483647}}
          \cup {<<17>> \o s : s \in {<<>>, <<40>>, <<41>>, <<37, 100>>, <<34, 92>>, <<10>>, <<0>>, <<255, 254>>, <<104, 105>>, <<237, 149, 156>>}}
OtherTexts == {<<C("text", a), C("display", a), C("debug", a), C("backi", <<>>)>> : a \in Others}
MCInit == Init /\ hist = <<>>
Plans == {<<C("parsei", s), C("parseu", s)>> : s \in Short \cup Long}
         \cup {q \o <<C("backi", <<>>), C("backu", <<>>)>> : q \in Texts} \cup OtherTexts
Pick == hist = <<>> /\ \E p \in Plans : hist' = <<C("new", <<>>)>> \o p /\ UNCHANGED tvars
MCSpec == MCInit /\ [][Pick]_mcv
Emit == PrintT("SCRIPT " \o ToJson(hist'))
\* the grammar against itself: a parsed text has the digits of its value
Law == (hist # <<>> /\ hist[2].op = "parsei" /\ Parses(hist[2].a, TRUE)) =>
         LET t == hist[2].a d == Strip(Digits(t)) v == Value(t) IN IsText((IF IsNeg(v) THEN <<45>> ELSE <<>>) \o d, v)
Law2 == (hist # <<>> /\ hist[2].op = "parsei") => LET t == hist[2].a IN
          (Parses(t, FALSE) /\ ~Parses(t, TRUE) => CmpI(Value(t), MaxI(64, TRUE)) > 0)
          /\ (Parses(t, TRUE) /\ ~Parses(t, FALSE) => Signed(t) /\ t[1] = 45)
=============================================================================
