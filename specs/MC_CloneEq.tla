----------------------------- MODULE MC_CloneEq -----------------------------
(* Histories that build, clone, change either side and compare, for every    *)
(* kind.  from records who was cloned from whom, so that equal contents       *)
(* reached with and without cloning are both explored.                        *)
EXTENDS CloneEq, TLC, Json
CONSTANTS Kinds, Depth, MaxRows
VARIABLES hist, from
C(op, a) == [op |-> op, a |-> a]
mcv == <<kind, s, res, hist, from>>
Rows == IF kind \in Scalar THEN {<<1>>, <<2>>} ELSE {<<1>>, <<1, 2>>}
SL == 1..2
Calls == {C("add", <<i>> \o r) : i \in SL, r \in Rows} \cup {C("addf", <<i>> \o r) : i \in SL, r \in Rows}
         \cup {C(op, <<i>>) : op \in {"popb", "popf", "clear"}, i \in SL}
         \cup {C("put", <<i, k>> \o r) : i \in SL, k \in 1..2, r \in Rows} \cup {C("del", <<i, k>>) : i \in SL, k \in 1..2}
         \cup {C("poke", <<i, j, 7>>) : i \in SL, j \in 1..2}
         \cup {C(op, <<i, 3 - i>>) : op \in {"clone", "same"}, i \in SL} \cup {C("eq", <<i, j>>) : i \in SL, j \in SL}
MCInit == Init /\ hist = <<>> /\ from = 0
MCNext == IF hist = <<>> THEN \E k \in Kinds : New(k) /\ hist' = <<C("new", <<k>>)>> /\ from' = 0
          ELSE \E e \in Calls : Do(e) /\ hist' = Append(hist, e) /\ from' = (IF e.op \in {"clone", "same"} THEN e.a[1] ELSE from)
MCSpec == MCInit /\ [][MCNext]_mcv
Bound == Len(hist) <= Depth /\ \A i \in Slots : Len(s[i]) <= MaxRows
View == <<kind, s, from, hist = <<>>>>
Emit == Bound' => PrintT("SCRIPT " \o ToJson(hist'))
\* a change to one container leaves the others alone; a clone is equal
Independent == [][hist # <<>> => LET e == hist'[Len(hist')] IN
                    \A i \in Slots : (i # (IF e.op \in {"clone", "same"} THEN e.a[2] ELSE e.a[1]) => s'[i] = s[i])]_mcv
CloneEqual == [][hist # <<>> => LET e == hist'[Len(hist')] IN e.op \in {"clone", "same"} => s'[e.a[1]] = s'[e.a[2]]]_mcv
=============================================================================
