------------------------------ MODULE MC_HMap ------------------------------
(* Every transition of small maps and sets, reached by a shortest history.   *)
EXTENDS HMap, Json
CONSTANTS NKeys, NVals, Depth
VARIABLE hist
C(op, a) == [op |-> op, a |-> a]
mcv == <<m, kind, res, hist>>
KK == {k * 100 : k \in 1..NKeys}
Calls == {C("ins", <<k, v>>) : k \in KK, v \in 1..NVals} \cup {C(op, <<k>>) : op \in {"rem", "get", "has"}, k \in KK}
         \cup {C(op, <<>>) : op \in {"len", "isempty", "clear", "iter", "keys", "values", "asmap", "asslice"}}
         \cup {C("fromslice", q) : q \in {<<>>, <<100>>, <<200, 100, 200>>}}
\* an arbitrary enumeration stands for all of them
RECURSIVE Enum(_)
Enum(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o Enum(S \ {x})
Act(e) == CASE e.op \in {"iter", "asmap"} -> Iter(LET q == Enum(Dom) IN [i \in 1..(2 * Len(q)) |-> IF i % 2 = 1 THEN q[(i + 1) \div 2] ELSE m[q[i \div 2]]])
            [] e.op \in {"keys", "asslice"} -> Keys(Enum(Dom))
            [] e.op = "values" -> Values(LET q == Enum(Dom) IN [i \in 1..Len(q) |-> m[q[i]]])
            [] OTHER -> Do(e)
Fits(e) == CASE e.op \in {"asslice", "fromslice"} -> kind = 1 [] e.op = "asmap" -> kind = 0 [] OTHER -> TRUE
MCInit == Init /\ hist = <<>>
MCNext == IF hist = <<>> THEN \E kd \in {0, 1}, ty \in {0, 1, 2}, md \in {0, 1} : New(kd) /\ hist' = <<C("new", <<kd, ty, NKeys, md>>)>>
          ELSE \E e \in Calls : Fits(e) /\ Act(e) /\ hist' = Append(hist, e)
MCSpec == MCInit /\ [][MCNext]_mcv
Bound == Len(hist) <= Depth
View == <<m, kind, IF hist = <<>> THEN <<>> ELSE hist[1].a>>
Emit == Bound' => PrintT("SCRIPT " \o ToJson(hist'))
\* laws: a removal undoes an insertion; a lookup after an insertion finds it
Laws == [][\A k \in KK : hist' # <<>> /\ hist # <<>> =>
             LET e == hist'[Len(hist')] IN
             /\ (e.op = "ins" /\ e.a[1] = k) => k \in DOMAIN m'
             /\ (e.op = "rem" /\ e.a[1] = k) => k \notin DOMAIN m'
             /\ (e.op \in {"ins", "rem"} /\ e.a[1] # k) => (k \in DOMAIN m <=> k \in DOMAIN m')
             /\ (e.op \in {"get", "has", "iter", "keys", "values"} => m' = m)]_mcv
=============================================================================
