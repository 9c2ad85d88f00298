-------------------------------- MODULE OMap --------------------------------
(* C05, C06: an ordered map (kind 0) or ordered set (kind 1) is a function   *)
(* from keys to the key first inserted and the value last inserted.          *)
(* m[k] = <<x, v>>: x is the stored key (Key(x) = k), v its value (0 in a     *)
(* set).  ty is the key type, which matters for display only.                *)
EXTENDS SeqOps, TextOps, TLC
VARIABLES m, kind, ty, res
mvars == <<m, kind, ty, res>>

EmptyFn == [k \in {} |-> <<0, 0>>]
Init == m = EmptyFn /\ kind = 0 /\ ty = 0 /\ res = Unit
New(a) == m' = EmptyFn /\ kind' = a[1] /\ ty' = a[2] /\ res' = Unit
Dom == DOMAIN m
Same == UNCHANGED <<m, kind, ty>>
Set(k, x, v) == (k :> <<x, v>>) @@ m
Drop(ks) == [k \in Dom \ ks |-> m[k]]
\* types other than Item have no tag: the whole number is the key
KeyOf(x) == IF ty = 0 THEN Key(x) * 100 ELSE x
Value(k) == IF k \in Dom THEN Some(m[k][2]) ELSE None
Member(k) == Bool(k \in Dom)
Ins(x, v) == LET k == KeyOf(x) IN
  /\ IF kind = 0
     THEN /\ m' = Set(k, IF k \in Dom THEN m[k][1] ELSE x, v) /\ res' = Value(k)
     ELSE /\ m' = (IF k \in Dom THEN m ELSE Set(k, x, 0)) /\ res' = Bool(k \notin Dom)
  /\ UNCHANGED <<kind, ty>>
Rem(x) == LET k == KeyOf(x) IN
  /\ m' = (IF k \in Dom THEN Drop({k}) ELSE m)
  /\ res' = (IF kind = 0 THEN Value(k) ELSE Member(k))
  /\ UNCHANGED <<kind, ty>>
Get(x) == res' = (IF kind = 0 THEN Value(KeyOf(x)) ELSE Member(KeyOf(x))) /\ Same
Has(x) == res' = Member(KeyOf(x)) /\ Same
Steps(n, from, by) == {(from + i * by) * 100 : i \in 0..(n - 1)}
Load(n, from, by) ==
  /\ m' = [k \in Dom \cup Steps(n, from, by) |->
            IF k \in Steps(n, from, by)
            THEN <<IF k \in Dom THEN m[k][1] ELSE k, IF kind = 0 THEN k \div 100 ELSE 0>>
            ELSE m[k]]
  /\ res' = Unit /\ UNCHANGED <<kind, ty>>
Unload(n, from, by) == m' = Drop(Steps(n, from, by)) /\ res' = Unit /\ UNCHANGED <<kind, ty>>
Size == Cardinality(Dom)
LenOp == res' = Int1(Size) /\ Same
IsEmpty == res' = Bool(Dom = {}) /\ Same
Clear == m' = EmptyFn /\ res' = Unit /\ UNCHANGED <<kind, ty>>

\* q lists number/value pairs found by looking up every multiple of 100
ProbedIn(mm, q) == LET ks == {k \in DOMAIN mm : k % 100 = 0} IN
  /\ Len(q) = 2 * Cardinality(ks)
  /\ \A i \in 1..(Len(q) \div 2) : /\ q[2 * i - 1] * 100 \in ks
                                   /\ q[2 * i] = mm[q[2 * i - 1] * 100][2]
                                   /\ i > 1 => q[2 * i - 3] < q[2 * i - 1]
Probe(q) == ProbedIn(m, q) /\ res' = SeqR(q) /\ Same
\* q lists the keys (entries): each once, strictly increasing
Enumerates(q) == /\ Len(q) = Size
                 /\ \A i \in 1..Len(q) : /\ KeyOf(q[i]) \in Dom /\ m[KeyOf(q[i])][1] = q[i]
                                         /\ i > 1 => KeyOf(q[i - 1]) < KeyOf(q[i])
RECURSIVE Ordered(_)
Ordered(S) == IF S = {} THEN <<>> ELSE IF Cardinality(S) = 1 THEN <<CHOOSE x \in S : TRUE>>
              ELSE LET p == CHOOSE x \in S : TRUE IN Ordered({x \in S : x < p}) \o <<p>> \o Ordered({x \in S : x > p})
InOrder == LET q == Ordered(Dom) IN [i \in 1..Len(q) |-> m[q[i]]]
Entries == Flat(InOrder)
Iter == res' = SeqR(Entries) /\ Same
Column(c) == LET q == InOrder IN [i \in 1..Len(q) |-> q[i][c]]
Keys == res' = SeqR(Column(1)) /\ Same
Values == res' = SeqR(Column(2)) /\ Same
MapName == <<66, 84, 114, 101, 101, 77, 97, 112, 123>>   \* BTreeMap{
SetName == <<66, 84, 114, 101, 101, 83, 101, 116, 123>>  \* BTreeSet{
ShowKey(x) == IF ty = 2 THEN PadNat(x, 8) ELSE Dec(x)
Shown == LET q == InOrder IN
         IF kind = 0
         THEN MapName \o JoinText([i \in 1..Len(q) |-> ShowKey(q[i][1]) \o ColonSp \o Dec(q[i][2])], CommaSp) \o <<125>>
         ELSE SetName \o JoinText([i \in 1..Len(q) |-> ShowKey(q[i][1])], CommaSp) \o <<125>>
Display == res' = SeqR(Shown) /\ Same

Do(e) ==
  CASE e.op = "new"     -> New(e.a)
    [] e.op = "ins"     -> Ins(e.a[1], e.a[2])
    [] e.op = "rem"     -> Rem(e.a[1])
    [] e.op = "get"     -> Get(e.a[1])
    [] e.op = "has"     -> Has(e.a[1])
    [] e.op = "load"    -> Load(e.a[1], e.a[2], e.a[3])
    [] e.op = "unload"  -> Unload(e.a[1], e.a[2], e.a[3])
    [] e.op = "probe"   -> Probe(e.v)
    [] e.op = "len"     -> LenOp
    [] e.op = "isempty" -> IsEmpty
    [] e.op = "clear"   -> Clear
    [] e.op = "iter"    -> Iter
    [] e.op = "keys"    -> Keys
    [] e.op = "values"  -> Values
    [] e.op = "display" -> Display
\* what the line shows of the state after the call
SeesIn(mm, st) == st[1] = <<Cardinality(DOMAIN mm)>> /\ (IF Len(st) = 1 THEN TRUE ELSE ProbedIn(mm, st[2]))
=============================================================================
