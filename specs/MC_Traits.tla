----------------------------- MODULE MC_Traits -----------------------------
(* Every kind with every combination of own operations: all short histories  *)
(* of building, then every call.                                             *)
EXTENDS Traits, TLC, Json
CONSTANTS Depth, Most, Elems
VARIABLE hist
C(op, a) == [op |-> op, a |-> a]
mcv == <<tvars, hist>>
Build == {C("put", <<k, x>>) : k \in (IF kind \in MapKinds THEN {1, 2} ELSE {1}), x \in Elems} \cup {C("xchg", <<>>), C("clone", <<>>)}
Query == {C(op, <<>>) : op \in {"eq", "dedup", "sort", "sortu", "cmp", "pop", "enum", "display"}} \cup {C(op, <<x>>) : op \in {"contains", "search"}, x \in Elems \cup {30}}
Witness == {Unit, Bool(FALSE), Refused, None} \cup {R("opt", <<i>>) : i \in 0..2} \cup (IF kind = 7 THEN {R("opt", <<x>>) : x \in Range(s)} ELSE {})
           \cup (IF kind \in {3, 5, 6} THEN {R("text", Whole(t)) : t \in Orders(s)} ELSE {})
Contents == IF kind \in {0, 1} THEN Orders(s) ELSE {s}
Out(e) == \E w \in Witness, t \in Contents : Do(e, w, t)
MCInit == Init /\ hist = <<>>
MCNext == IF hist = <<>> THEN \E k \in 0..10, c \in {0, 1}, q \in {0, 1, 2}, d \in {0, 1} : New(k, c, q, d) /\ hist' = <<C("new", <<k, c, q, d>>)>>
          ELSE \E e \in Build \cup Query : Out(e) /\ hist' = Append(hist, e)
MCSpec == MCInit /\ [][MCNext]_mcv
Bound == Len(hist) <= Depth /\ Len(s) <= Most /\ Len(o) <= Most /\ (\A i \in 1..Len(s) : Elem(s, i) % 10 < 4)
View == <<kind, tc, tq, td, s, o, hist = <<>>>>
\* what the call did is seen by asking once more afterwards
Emit == Bound' => PrintT("SCRIPT " \o ToJson(hist' \o (IF hist = <<>> \/ kind \in {7, 10} THEN <<>> ELSE <<C("display", <<>>)>>)))
\* a refused call changes nothing, and happens only for want of an operation
RefusalStill == [][hist # <<>> /\ res'.k = "refused" => s' = s /\ o' = o]_mcv
RefusalDue == res.k = "refused" => ~(tc /\ HasOrd /\ td)
\* a clone with Clone is as long; equality sees the classes alone
CloneLen == [][hist # <<>> => (hist'[Len(hist')].op = "clone" /\ res' = Unit => Len(o') = Len(s) /\ s' = s)]_mcv
\* every call the kind has has an outcome
Has(e) == CASE e.op \in {"contains", "dedup", "sort", "sortu", "search"} -> kind \in {0, 1} [] e.op = "cmp" -> kind = 10 [] e.op = "pop" -> kind = 7
            [] e.op = "enum" -> kind = 6 [] e.op = "display" -> kind \notin {7, 10} [] e.op = "clone" -> kind \notin {4, 7}
            [] e.op = "eq" -> kind \notin {5, 7} [] OTHER -> TRUE
Total == (hist # <<>> /\ Bound) => \A e \in Query \cup {C("clone", <<>>)} : Has(e) => ENABLED Out(e)
=============================================================================
