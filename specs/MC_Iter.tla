------------------------------ MODULE MC_Iter ------------------------------
(* Every kind of iterator, contents of every small size, any number of        *)
(* elements taken, chains of adaptors; plus the laws adaptors obey.            *)
EXTENDS Iter, TLC, Json
CONSTANTS Kinds, Big, Depth, MaxSlots
Contents == {<<>>, <<301>>, <<402, 101, 203>>} \cup (IF Big THEN {<<101, 302>>, <<402, 101, 203, 300>>} ELSE {})
Pairs == {<<>>, <<3001>>, <<4002, 1001, 2004>>} \cup (IF Big THEN {<<5001, 2001>>} ELSE {})
VARIABLE hist
C(op, a) == [op |-> op, a |-> a, v |-> <<>>]
mcv == <<ivars, hist>>
Slots == 1..MaxSlots
Adapt == {C("map", <<i, k, f>>) : i \in Slots, k \in Slots, f \in {0, 1}} \cup {C("rev", <<i, k>>) : i \in Slots, k \in Slots}
         \cup {C("filter", <<i, k, 2, r>>) : i \in Slots, k \in Slots, r \in {0, 1}}
Ends == {C("fold", <<i, 3>>) : i \in Slots} \cup {C(op, <<i>>) : op \in {"collect", "collectlist"}, i \in Slots}
After == IF out = <<>> THEN {} ELSE {C("poke", <<0, 601>>), C("poke", <<1, 602>>), C("grow", <<603>>)} \cup
         (IF kind \in 0..2 /\ \A i \in 1..2 : ~it[i].live THEN {C("spoil", <<604>>)} ELSE {})
Calls == {C(op, <<i>>) : op \in {"into", "next"}, i \in Slots} \cup Adapt \cup Ends
\* where the order is open, any order stands for all
Act(e) == LET r == it[e.a[1]].rem IN
          CASE e.op = "next" -> Next(e.a[1], IF r = <<>> THEN <<>> ELSE <<r[1]>>)
            [] e.op \in {"collect", "collectlist"} -> Collect(e.a[1], r)
            [] OTHER -> Change(e, r)
Outs(e) == out' = (IF e.op \in {"collect", "collectlist"} THEN it[e.a[1]].rem ELSE out)
MCInit == Init /\ hist = <<>>
MCNext == IF hist = <<>> THEN \E k \in Kinds : \E q \in (IF k \in {4, 8} THEN Pairs ELSE Contents), rot \in (IF k = 1 THEN {0, 2} ELSE {0}) :
                 New(k, q) /\ out' = <<>> /\ hist' = <<C("new", <<k, rot>> \o q)>>
          ELSE \/ \E e \in Calls : Act(e) /\ Outs(e) /\ hist' = Append(hist, e)
               \/ \E e \in After : Do(e, <<>>) /\ hist' = Append(hist, e)
MCSpec == MCInit /\ [][MCNext]_mcv
Bound == Len(hist) <= Depth
View == <<IF hist = <<>> THEN <<>> ELSE hist[1].a, it, out, Len(hist)>>
Strip(h) == [i \in 1..Len(h) |-> [op |-> h[i].op, a |-> h[i].a]]
Emit == Bound' => PrintT("SCRIPT " \o ToJson(Strip(hist')))
\* laws
RevRev == \A i \in Slots : Rev(Rev(it[i].rem)) = it[i].rem
FilterSplit == \A i \in Slots : LET q == it[i].rem P(x) == x % 2 = 0 N(x) == x % 2 = 1 IN
                  /\ Len(SelectSeq(q, P)) + Len(SelectSeq(q, N)) = Len(q)
                  /\ Rev(SelectSeq(Rev(q), P)) = SelectSeq(q, P)
\* a collected vector and the container do not know each other
Apart == [][hist # <<>> => (out' # out => cont' = cont) /\ (cont' # cont => out' = out)]_mcv
NeverMore == \A i \in Slots : Len(it[i].rem) <= Len(cont)
=============================================================================
