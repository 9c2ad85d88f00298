------------------------------- MODULE SetAlg -------------------------------
(* C08: three sets of one kind (0 hash, 1 ordered) in slots 1..3 and the      *)
(* operations of set theory on them.  In an ordered set membership is by the *)
(* order, which looks at an item's key only: ord is TRUE there.               *)
EXTENDS SeqOps, TLC
VARIABLES s, ord, res
svars == <<s, ord, res>>
Slots == 1..3
Norm(x) == IF ord THEN Key(x) * 100 ELSE x
Init == s = [i \in Slots |-> {}] /\ ord = FALSE /\ res = Unit
New(kd, ty) == s' = [i \in Slots |-> {}] /\ ord' = (kd = 1 /\ ty = 0) /\ res' = Unit
Put(i, S) == s' = [s EXCEPT ![i] = S] /\ UNCHANGED ord
Load(i, q) == Put(i, {Norm(q[j]) : j \in 1..Len(q)}) /\ res' = Unit
LoadRange(i, n, from, by) == Put(i, {(from + j * by) * 100 : j \in 0..(n - 1)}) /\ res' = Unit
Ins(i, x) == res' = Bool(Norm(x) \notin s[i]) /\ Put(i, s[i] \cup {Norm(x)})
Rem(i, x) == res' = Bool(Norm(x) \in s[i]) /\ Put(i, s[i] \ {Norm(x)})
Inter(i, j, k) == Put(k, s[i] \cap s[j]) /\ res' = Unit
Union(i, j, k) == Put(k, s[i] \cup s[j]) /\ res' = Unit
SymDiff(i, j, k) == Put(k, (s[i] \ s[j]) \cup (s[j] \ s[i])) /\ res' = Unit
Ask(b) == res' = Bool(b) /\ UNCHANGED <<s, ord>>
Do(e) ==
  CASE e.op = "new"    -> New(e.a[1], e.a[2])
    [] e.op = "load"   -> Load(e.a[1], Tail(e.a))
    [] e.op = "range"  -> LoadRange(e.a[1], e.a[2], e.a[3], e.a[4])
    [] e.op = "ins"    -> Ins(e.a[1], e.a[2])
    [] e.op = "rem"    -> Rem(e.a[1], e.a[2])
    [] e.op = "inter"  -> Inter(e.a[1], e.a[2], e.a[3])
    [] e.op = "union"  -> Union(e.a[1], e.a[2], e.a[3])
    [] e.op = "symdiff" -> SymDiff(e.a[1], e.a[2], e.a[3])
    [] e.op = "subset" -> Ask(s[e.a[1]] \subseteq s[e.a[2]])
    [] e.op = "superset" -> Ask(s[e.a[2]] \subseteq s[e.a[1]])
    [] e.op = "disjoint" -> Ask(s[e.a[1]] \cap s[e.a[2]] = {})
    [] e.op = "eq"     -> Ask(s[e.a[1]] = s[e.a[2]])
\* q: length, then the members found by lookup, then the members enumerated
SeesSet(S, q) == LET n == Cardinality(S) IN
  /\ Len(q) = 1 + 2 * n /\ q[1] = n
  /\ {q[i] : i \in 2..(n + 1)} = S
  /\ {Norm(q[i]) : i \in (n + 2)..(2 * n + 1)} = S
SeesIn(ss, st) == \A i \in Slots : SeesSet(ss[i], st[i])
=============================================================================
