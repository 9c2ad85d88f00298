----------------------------- MODULE MC_Future -----------------------------
(* Scripts: every order of starts, openings and awaits up to Depth.            *)
EXTENDS Future, Json
CONSTANTS Depth
VARIABLES hist
mcv == <<fvars, hist>>
C(op, a) == [op |-> op, a |-> a]
MCInit == Init /\ hist = <<>>
New == hist = <<>> /\ \E t \in 0..4 : LET e == C("new", <<t>>) IN Do(e) /\ hist' = <<e>>
Fresh == IF \A i \in Futs : st[i] # 0 THEN {} ELSE {CHOOSE i \in Futs : st[i] = 0 /\ \A j \in Futs : j < i => st[j] # 0}
Acted == {hist[i].a[1] : i \in {j \in 2..Len(hist) : hist[j].op = "await"}}
May(a) == a \in Acted \/ a = Cardinality(Acted) + 1
Calls == {C("start", <<i, 10 * Len(hist) + i - 11, d>>) : i \in Fresh, d \in {0} \cup {j \in Futs : st[j] # 0}}
         \cup {C("open", <<i>>) : i \in {j \in Futs : st[j] # 0 /\ ~open[j]}}
         \cup {C("await", <<a, i>>) : a \in {b \in Callers : May(b) /\ aw[b] = 0}, i \in {j \in Futs : st[j] # 0}}
Step == hist # <<>> /\ Len(hist) <= Depth /\ \E e \in Calls : Do(e) /\ hist' = Append(hist, e)
MCSpec == MCInit /\ [][New \/ Step]_mcv
Emit == IF Len(hist') = Depth + 1 THEN PrintT("SCRIPT " \o ToJson(hist')) ELSE TRUE
\* whole calls leave nobody awaiting what has returned
Settled == \A a \in Callers : aw[a] # 0 => st[aw[a]] # 3
=============================================================================
