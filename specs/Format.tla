------------------------------- MODULE Format -------------------------------
(* C22: templates and displays.  Text is a sequence of code points.  A value   *)
(* is written down in prefix form <<kind, ...>>; since hash-based containers   *)
(* come in any order, a value has a set of displays.                           *)
EXTENDS SeqOps, TextOps
VARIABLES res
fvars == <<res>>
\* names: Vec VecDeque LinkedList BTreeSet HashSet BTreeMap HashMap Some None Ok
N(i) == CASE i = 3 -> <<86, 101, 99>>
          [] i = 4 -> <<86, 101, 99, 68, 101, 113, 117, 101>>
          [] i = 5 -> <<76, 105, 110, 107, 101, 100, 76, 105, 115, 116>>
          [] i = 6 -> <<66, 84, 114, 101, 101, 83, 101, 116>>
          [] i = 7 -> <<72, 97, 115, 104, 83, 101, 116>>
          [] i = 8 -> <<66, 84, 114, 101, 101, 77, 97, 112>>
          [] i = 9 -> <<72, 97, 115, 104, 77, 97, 112>>
TrueT == <<116, 114, 117, 101>>
FalseT == <<102, 97, 108, 115, 101>>
NoneT == <<78, 111, 110, 101>>
SomeT == <<83, 111, 109, 101, 40>>
OkT == <<79, 107, 40>>
Orders(n) == {p \in [1..n -> 1..n] : \A i, j \in 1..n : i # j => p[i] # p[j]}
\* the order of the keys ks: ascending, each once
Ascending(ks) == {p \in Orders(Len(ks)) : \A i \in 1..(Len(ks) - 1) : ks[p[i]] < ks[p[i + 1]]}
\* every way to pick one text for each place
RECURSIVE Picks(_)
Picks(sets) == IF sets = <<>> THEN {<<>>} ELSE {<<h>> \o t : h \in Head(sets), t \in Picks(Tail(sets))}
Wrap(name, open, texts, close) == name \o <<open>> \o JoinText(texts, CommaSp) \o <<close>>
\* V(a, i): the value written at a[i..]: its displays and where it ends
RECURSIVE V(_, _), Vs(_, _, _), KVs(_, _, _)
\* n values from i: their displays, place by place, and the end
Vs(a, i, n) == IF n = 0 THEN [d |-> <<>>, e |-> i]
               ELSE LET h == V(a, i) t == Vs(a, h.e, n - 1) IN [d |-> <<h.d>> \o t.d, e |-> t.e]
\* n pairs of an integer key and a value
KVs(a, i, n) == IF n = 0 THEN [k |-> <<>>, d |-> <<>>, e |-> i]
                ELSE LET h == V(a, i + 1) t == KVs(a, h.e, n - 1)
                     IN [k |-> <<a[i]>> \o t.k, d |-> <<{Dec(a[i]) \o ColonSp \o x : x \in h.d}>> \o t.d, e |-> t.e]
\* code points in order, which is the order of their UTF-8 texts
RECURSIVE Before(_, _)
Before(p, q) == IF p = <<>> \/ q = <<>> THEN p = <<>> /\ q # <<>>
                ELSE p[1] < q[1] \/ (p[1] = q[1] /\ Before(Tail(p), Tail(q)))
Sorted(ks) == {p \in Orders(Len(ks)) : \A i \in 1..(Len(ks) - 1) : Before(ks[p[i]], ks[p[i + 1]])}
\* n string keys from i, each followed by a value where both: keys, texts, end
RECURSIVE SVs(_, _, _, _)
SVs(a, i, n, both) ==
  IF n = 0 THEN [k |-> <<>>, d |-> <<>>, e |-> i]
  ELSE LET key == SubSeq(a, i + 1, i + a[i]) j == i + 1 + a[i]
           h == IF both THEN V(a, j) ELSE [d |-> {<<>>}, e |-> j]
           t == SVs(a, h.e, n - 1, both)
       IN [k |-> <<key>> \o t.k, d |-> <<IF both THEN {key \o ColonSp \o x : x \in h.d} ELSE {key}>> \o t.d, e |-> t.e]
V(a, i) ==
  LET k == a[i] IN
  CASE k = 0 -> [d |-> {Dec(a[i + 1])}, e |-> i + 2]
    [] k = 1 -> [d |-> {SubSeq(a, i + 2, i + 1 + a[i + 1])}, e |-> i + 2 + a[i + 1]]
    [] k = 2 -> [d |-> {IF a[i + 1] = 1 THEN TrueT ELSE FalseT}, e |-> i + 2]
    [] k \in {3, 4, 5} ->
         LET vs == Vs(a, i + 2, a[i + 1])
         IN [d |-> {Wrap(N(k), 91, ts, 93) : ts \in Picks(vs.d)}, e |-> vs.e]
    [] k \in {6, 7} ->
         LET n == a[i + 1] ks == SubSeq(a, i + 2, i + 1 + n)
             os == IF k = 6 THEN Ascending(ks) ELSE Orders(n)
         IN [d |-> {Wrap(N(k), 123, [j \in 1..n |-> Dec(ks[p[j]])], 125) : p \in os}, e |-> i + 2 + n]
    [] k \in {8, 9} ->
         LET n == a[i + 1] kv == KVs(a, i + 2, n)
             os == IF k = 8 THEN Ascending(kv.k) ELSE Orders(n)
         IN [d |-> {Wrap(N(k), 123, [j \in 1..n |-> ts[p[j]]], 125) : ts \in Picks(kv.d), p \in os}, e |-> kv.e]
    [] k = 10 -> IF a[i + 1] = 0 THEN [d |-> {NoneT}, e |-> i + 2]
                 ELSE LET v == V(a, i + 2) IN [d |-> {SomeT \o x \o <<41>> : x \in v.d}, e |-> v.e]
    \* a failure displays as its error does
    [] k = 11 -> IF a[i + 1] = 0 THEN [d |-> V(a, i + 2).d, e |-> V(a, i + 2).e]
                 ELSE LET v == V(a, i + 2) IN [d |-> {OkT \o x \o <<41>> : x \in v.d}, e |-> v.e]
    \* sets and maps of strings: ordered and hash maps 13 14, sets 15 16
    [] k \in 13..16 ->
         LET n == a[i + 1] kv == SVs(a, i + 2, n, k < 15)
             os == IF k \in {13, 15} THEN Sorted(kv.k) ELSE Orders(n)
         IN [d |-> {Wrap(N(CASE k = 13 -> 8 [] k = 14 -> 9 [] k = 15 -> 6 [] k = 16 -> 7), 123, [j \in 1..n |-> ts[p[j]]], 125) : ts \in Picks(kv.d), p \in os}, e |-> kv.e]
    \* a pair of scalars
    [] k = 12 -> LET vs == Vs(a, i + 1, 2) IN [d |-> {Wrap(<<80, 97, 105, 114>>, 91, ts, 93) : ts \in Picks(vs.d)}, e |-> vs.e]
Displays(a) == V(a, 1).d
\* debugging texts: those of containers, pairs and optional values are their displays
Debugs(a) == CASE a[1] = 0 -> {<<73, 51, 50, 40>> \o d \o <<41>> : d \in Displays(a)}
               [] a[1] = 1 -> {<<83, 116, 114, 105, 110, 103, 40>> \o d \o <<41>> : d \in Displays(a)}
               [] a[1] = 2 -> {<<66, 111, 111, 108, 40>> \o d \o <<41>> : d \in Displays(a)}
               [] OTHER -> Displays(a)
\* the texts of template t with the displays ds of the arguments: {} when an
\* argument is missing.  Single braces are not templates.
RECURSIVE Fill(_, _)
Fill(t, ds) ==
  IF t = <<>> THEN {<<>>}
  ELSE IF Len(t) > 1 /\ t[1] = 123 /\ t[2] = 123 THEN {<<123>> \o x : x \in Fill(SubSeq(t, 3, Len(t)), ds)}
  ELSE IF Len(t) > 1 /\ t[1] = 125 /\ t[2] = 125 THEN {<<125>> \o x : x \in Fill(SubSeq(t, 3, Len(t)), ds)}
  ELSE IF Len(t) > 1 /\ t[1] = 123 /\ t[2] = 125
       THEN IF ds = <<>> THEN {} ELSE {d \o x : d \in Head(ds), x \in Fill(SubSeq(t, 3, Len(t)), Tail(ds))}
  ELSE {<<t[1]>> \o x : x \in Fill(Tail(t), ds)}
\* a call's arguments: <<length of the template>> \o template \o <<n>> \o n values
Template(a) == SubSeq(a, 2, a[1] + 1)
Values(a) == Vs(a, a[1] + 3, a[a[1] + 2]).d
Texts(a) == Fill(Template(a), Values(a))
Outcome(S, r) == IF S = {} THEN r = Panic ELSE r.k = "seq" /\ r.v \in S
\* r: what was observed, judged
Judge(e, r) ==
  CASE e.op = "new" -> r = Unit
    [] e.op \in {"display", "text"} -> Outcome(Displays(e.a), r)
    [] e.op = "debug" -> Outcome(Debugs(e.a), r)
    [] e.op = "format" -> Outcome(Texts(e.a), r)
    [] e.op = "print" -> Outcome(Texts(e.a), r)
    [] e.op = "println" -> Outcome({x \o <<10>> : x \in Texts(e.a)}, r)
Init == res = Unit
Do(e, r) == Judge(e, r) /\ res' = r
=============================================================================
