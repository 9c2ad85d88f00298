------------------------------ MODULE MC_Order ------------------------------
(* All triples of a set of telling values of each type: the order is total,   *)
(* antisymmetric, transitive and consistent with equality; every pair is then  *)
(* compared on the real code.                                                   *)
EXTENDS Order, TLC, Json
CONSTANTS Types
VARIABLES hist, i
mcv == <<nvars, hist, i>>
Wd(t) == CASE t \in {0, 5} -> 8 [] t \in {1, 6} -> 16 [] t \in {2, 7} -> 32 [] t \in {3, 4, 8, 9} -> 64 [] OTHER -> 128
Sg(t) == t \in 0..4 \cup {10}
Ints(t) == {Log12(v) : v \in {n \in {Zero, Z(1), Z(-1), MinI(Wd(t), Sg(t)), MaxI(Wd(t), Sg(t)), SubI(MaxI(Wd(t), Sg(t)), Z(1)), Pow2(Wd(t) \div 2), NegI(Pow2(Wd(t) \div 2)),
                                    AddI(Pow2(Wd(t) \div 2), Z(1)), AddI(NegI(Pow2(Wd(t) \div 2)), Z(-1)), Z(10), Z(9)} : InRange(n, Wd(t), Sg(t))}}
P(t) == IF t = 12 THEN 24 ELSE 53
Flts(t) == {DLog(v) : v \in {DZero, <<0, <<1>>, 0>>, <<1, <<1>>, 0>>, <<0, <<1>>, -1>>, <<1, <<1>>, -1>>, <<0, <<3>>, -1>>,
              DNorm(0, SubN(Pow2N(P(t)), NatN(1)), 0), DNorm(0, SubN(Pow2N(P(t)), NatN(2)), 0), DNorm(1, SubN(Pow2N(P(t)), NatN(1)), 0),
              <<0, <<1>>, IF t = 12 THEN -149 ELSE -1074>>, <<1, <<1>>, IF t = 12 THEN -149 ELSE -1074>>}}
           \cup {<<s, 9999, 1, 0, 0, 0, 0>> : s \in {0, 1}} \cup {<<1, 0, 0, 0, 0, 0, 0>>}
Strs == {<<0>>, <<1, 97>>, <<1, 98>>, <<2, 97, 98>>, <<2, 97, 97>>, <<1, 65>>, <<2, 195, 169>>, <<1, 0>>, <<3, 97, 98, 0>>, <<1, 122>>, <<4, 240, 159, 152, 128>>, <<3, 239, 191, 191>>}
Small == {Log12(Z(0)), Log12(Z(5)), Log12(Z(-5))}
Vals(t) == CASE t \in 0..11 -> Ints(t) [] t \in {12, 13} -> Flts(t) [] t = 14 -> {<<0>>, <<1>>} [] t = 15 -> {<<0>>, <<97>>, <<127>>, <<128>>, <<255>>, <<1114111>>, <<128512>>}
             [] t = 16 -> {<<0>>, <<97>>, <<127>>, <<128>>, <<255>>} [] t = 17 -> Strs
             [] t = 18 -> {p \o q : p \in Small, q \in {<<0>>, <<1, 97>>, <<2, 97, 98>>}}
             [] t = 19 -> {q \o DLog(p) : q \in {<<0>>, <<1, 97>>, <<2, 97, 98>>}, p \in {DZero, <<0, <<1>>, -1>>, <<1, <<1>>, -1>>}} \cup {<<0, 1, 0, 0, 0, 0, 0, 0>>, <<1, 97, 1, 0, 0, 0, 0, 0, 0>>}
             [] t = 20 -> {p \o <<b>> \o q : p \in {Log12(Z(0)), Log12(Z(5))}, b \in {0, 1}, q \in {Log12(Z(1)), Log12(Z(-1))}}
C(op, a) == [op |-> op, a |-> a]
Asks == [k \in 1..18 |-> C(IF k <= 9 THEN "cmp" ELSE "eq", <<(((k - 1) % 9) \div 3) + 1, ((k - 1) % 3) + 1>>)]
\* copies compare as the originals do (128-bit integers cannot be copied)
Copies(t) == IF t \in {10, 11} THEN <<>> ELSE <<C("clone", <<1, 3>>), C("eq", <<3, 1>>), C("cmp", <<3, 2>>), C("ref", <<2, 1>>), C("eq", <<1, 2>>), C("cmp", <<1, 3>>)>>
MCInit == Init /\ hist = <<>> /\ i = 0
Pick == /\ i = 0
        /\ \E t \in Types : \E u \in Vals(t), v \in Vals(t), w \in Vals(t) :
             /\ ty' = t /\ res' = Unit /\ r' = <<Parts(u, 1, Shape(t)), Parts(v, 1, Shape(t)), Parts(w, 1, Shape(t))>>
             /\ hist' = <<C("new", <<t>>), C("put", <<1>> \o u), C("put", <<2>> \o v), C("put", <<3>> \o w)>> \o Asks \o Copies(t)
        /\ i' = 1
MCSpec == MCInit /\ [][Pick]_mcv
\* every pair, each value as all three operands somewhere
Emit == PrintT("SCRIPT " \o ToJson(hist'))
Cmp(p, q) == CmpParts(Shape(ty), p, q)
TotalOrder == i = 1 =>
  /\ \A j, k \in 1..3 : Cmp(r[j], r[k]) = 0 - Cmp(r[k], r[j]) /\ ((Cmp(r[j], r[k]) = 0) = (r[j] = r[k]))
  /\ (Cmp(r[1], r[2]) <= 0 /\ Cmp(r[2], r[3]) <= 0 => Cmp(r[1], r[3]) <= 0)
=============================================================================
