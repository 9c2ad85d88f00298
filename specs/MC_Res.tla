------------------------------ MODULE MC_Res ------------------------------
(* Every operation in every state of two results, for each element    *)
(* type; and the algebra the operations obey.                                 *)
EXTENDS Res, TLC, Json
CONSTANTS Xs, Es, Types, Depth
VARIABLE hist
C(op, a) == [op |-> op, a |-> a, v |-> a]
mcv == <<s, ty, res, calls, hist>>
Fs == {0, 1}
Slots == 1..2
Calls == UNION {
  {C("ok", <<i, x>>) : x \in Xs} \cup {C("err", <<i, n>>) : n \in Es}
  \cup {C(op, <<i>>) : op \in {"isok", "iserr", "unwrap", "unwraperr", "toopt", "toerr", "display"}}
  \cup {C(op, <<i, 2, r>>) : op \in {"isokand", "iserrand"}, r \in {0, 1}}
  \cup {C(op, <<i, 98, 111, 111>>) : op \in {"expect", "expecterr"}}
  \cup {C(op, <<i, 300>>) : op \in {"unwrapor", "unwraporelse"}} \cup {C(op, <<i, k, f>>) : op \in {"map", "maperr"}, k \in Slots, f \in Fs}
  \cup {C(op, <<i, 4, f>>) : op \in {"mapor", "maporelse"}, f \in Fs}
  \cup {C(op, <<i, k, f>>) : op \in {"andthen", "orelse"}, k \in Slots, f \in {0, 1, 9}}
  \cup {C(op, <<i, j, k>>) : op \in {"and", "or"}, j \in Slots, k \in Slots}
  \cup {C(op, <<i, j>>) : op \in {"clone", "ref"}, j \in Slots} \cup {C("eq", <<i, j>>) : j \in Slots} : i \in Slots}
MCInit == Init /\ hist = <<>>
MCNext == IF hist = <<>> THEN \E t \in Types : Do(C("new", <<t>>)) /\ hist' = <<[op |-> "new", a |-> <<t>>]>>
          ELSE \E e \in Calls : (IF e.op = "display" THEN ty # 3 ELSE TRUE) /\ Do(e) /\ hist' = Append(hist, [op |-> e.op, a |-> e.a])
MCSpec == MCInit /\ [][MCNext]_mcv
Bound == Len(hist) <= Depth /\ \A i \in Slots : s[i][2] \in (IF s[i][1] = 0 THEN Xs \cup {5, 101} ELSE Es \cup {5, 6})
View == <<s, ty, hist = <<>>>>
Emit == Bound' => PrintT("SCRIPT " \o ToJson(hist'))
\* laws: a function is called at most once, and only on what is there
Once == Len(calls) <= 1
Laws == [][hist # <<>> => LET e == hist'[Len(hist')] IN
   /\ (e.op \in {"map", "andthen", "isokand"} => (calls' # <<>> <=> s[e.a[1]][1] = 0))
   /\ (e.op \in {"maperr", "orelse", "iserrand", "unwraporelse"} => (calls' # <<>> <=> s[e.a[1]][1] = 1))
   /\ (e.op = "or" => (res'.v[1] = 0) = (s[e.a[1]][1] = 0 \/ s[e.a[2]][1] = 0))
   /\ (e.op = "and" => (res'.v[1] = 0) = (s[e.a[1]][1] = 0 /\ s[e.a[2]][1] = 0))
   /\ (e.op \in {"map", "andthen", "and"} /\ s[e.a[1]][1] = 1 => res'.v = s[e.a[1]])
   /\ (res'.k = "panic" => s' = s)]_mcv
=============================================================================
