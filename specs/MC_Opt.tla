------------------------------ MODULE MC_Opt ------------------------------
(* Every operation in every state of two optional values, for each element    *)
(* type; and the algebra the operations obey.                                 *)
EXTENDS Opt, TLC, Json
CONSTANTS Xs, Types, Depth
VARIABLE hist
C(op, a) == [op |-> op, a |-> a, v |-> a]
mcv == <<ovars, hist>>
Fs == {0, 1}
Calls == UNION {
  {C("some", <<i, x>>) : x \in Xs} \cup {C(op, <<i>>) : op \in {"none", "zero", "issome", "isnone", "unwrap", "take", "display"}}
  \cup {C("issomeand", <<i, 2, r>>) : r \in {0, 1}} \cup {C("expect", <<i, 98, 111, 111>>), C("expect", <<i, 37, 118, 32, 123, 125>>)}
  \cup {C(op, <<i, 300>>) : op \in {"unwrapor", "unwraporelse", "replace"}} \cup {C("map", <<i, k, f>>) : k \in Slots, f \in Fs}
  \cup {C(op, <<i, 4, f>>) : op \in {"mapor", "maporelse"}, f \in Fs} \cup {C("and", <<i, j>>) : j \in Slots}
  \cup {C("andthen", <<i, f>>) : f \in {0, 1, 9}} \cup {C("filter", <<i, k, 2, r>>) : k \in Slots, r \in {0, 1}}
  \cup {C(op, <<i, j, k>>) : op \in {"or", "orelse", "xor"}, j \in Slots, k \in Slots}
  \cup {C(op, <<i, 200, w>>) : op \in {"insert", "getorinsert", "getorinsertwith"}, w \in {0, 101}}
  \cup {C("clone", <<i, j>>) : j \in Slots} \cup {C("copy", <<i, i - 1>>)} \cup {C("eq", <<i, j>>) : j \in Slots} : i \in Slots}
MCInit == Init /\ hist = <<>>
Poke == IF ptr = 0 THEN {} ELSE {C("poke", <<x>>) : x \in Xs}
MCNext == IF hist = <<>> THEN \E t \in Types : Do(C("new", <<t>>)) /\ hist' = <<[op |-> "new", a |-> <<t>>]>>
          ELSE \E e \in Calls \cup Poke : (IF e.op = "display" THEN ty # 3 ELSE TRUE) /\ Do(e) /\ hist' = Append(hist, [op |-> e.op, a |-> e.a])
MCSpec == MCInit /\ [][MCNext]_mcv
Bound == Len(hist) <= Depth /\ \A i \in Slots : s[i] = <<>> \/ s[i][1] \in Xs \cup {5, 101}
View == <<s, ty, ptr, held, shared, hist = <<>>>>
Emit == Bound' => PrintT("SCRIPT " \o ToJson(hist'))
\* laws: a function is called at most once, and only on what is there
Once == Len(calls) <= 1
\* what was handed out stays as it is
Kept == [][hist # <<>> => LET e == hist'[Len(hist')] IN e.op \notin {"take", "replace", "copy"} /\ ~Reaches(e) => held' = held]_mcv
Laws == [][hist # <<>> => LET e == hist'[Len(hist')] IN
   /\ (e.op \in {"map", "filter", "issomeand"} => (calls' # <<>> <=> s[e.a[1]] # <<>>))
   /\ (e.op \in {"unwraporelse", "orelse", "getorinsertwith"} => (calls' # <<>> <=> s[e.a[1]] = <<>>))
   /\ (e.op = "xor" => (res'.v # <<>>) = ((s[e.a[1]] # <<>>) # (s[e.a[2]] # <<>>)))
   /\ (e.op = "or" => (res'.v # <<>>) = ((s[e.a[1]] # <<>>) \/ (s[e.a[2]] # <<>>)))
   /\ (e.op = "and" => (res'.v # <<>>) = ((s[e.a[1]] # <<>>) /\ (s[e.a[2]] # <<>>)))
   /\ (res'.k = "panic" => s' = s /\ s[e.a[1]] = <<>>)]_mcv
=============================================================================
