----------------------------- MODULE MC_Thread -----------------------------
(* Scripts: every order of spawns, openings, joins and queries up to Depth.    *)
EXTENDS Thread, Json
CONSTANTS Depth
VARIABLES hist
mcv == <<tvars, hist>>
C(op, a) == [op |-> op, a |-> a]
MCInit == Init /\ hist = <<>>
New == hist = <<>> /\ LET e == C("new", <<0>>) IN Do(e, TRUE) /\ hist' = <<e>>
Fresh == IF \A i \in Works : st[i] # 0 THEN {} ELSE {CHOOSE i \in Works : st[i] = 0 /\ \A j \in Works : j < i => st[j] # 0}
Acted == {hist[i].a[1] : i \in {j \in 2..Len(hist) : hist[j].op = "join"}}
May(c) == c \in Acted \/ c = Cardinality(Acted) + 1
There == {j \in Works : st[j] # 0}
Calls == {C("spawn", <<i, 10 * Len(hist) + i, d>>) : i \in Fresh, d \in {0} \cup There}
         \cup {C("open", <<i>>) : i \in {j \in There : ~open[j]}}
         \cup {C("join", <<c, i>>) : c \in {b \in Callers : May(b) /\ jo[b] = 0}, i \in There}
         \cup {C("query", <<i>>) : i \in There} \cup {C("poll", <<i>>) : i \in {j \in There : st[j] = 3}}
Step == hist # <<>> /\ Len(hist) <= Depth /\ \E e \in Calls : Do(e, TRUE) /\ hist' = Append(hist, e)
MCSpec == MCInit /\ [][New \/ Step]_mcv
Emit == IF Len(hist') = Depth + 1 THEN PrintT("SCRIPT " \o ToJson(hist')) ELSE TRUE
Settled == \A c \in Callers : jo[c] # 0 => st[jo[c]] # 3
=============================================================================
