-------------------------------- MODULE HMap --------------------------------
(* C07: a hash map (kind 0) or hash set (kind 1) is a function from keys to  *)
(* the value last inserted (0 in a set).  Enumeration order is open: the     *)
(* order actually produced is the parameter q of the enumerating actions.    *)
EXTENDS SeqOps, TLC
VARIABLES m, kind, res
mvars == <<m, kind, res>>
EmptyFn == [k \in {} |-> 0]
Init == m = EmptyFn /\ kind = 0 /\ res = Unit
New(kd) == m' = EmptyFn /\ kind' = kd /\ res' = Unit
Dom == DOMAIN m
Same == UNCHANGED <<m, kind>>
Value(k) == IF k \in Dom THEN Some(m[k]) ELSE None
Ins(k, v) == /\ m' = (k :> (IF kind = 0 THEN v ELSE 0)) @@ m
             /\ res' = (IF kind = 0 THEN Value(k) ELSE Bool(k \notin Dom)) /\ UNCHANGED kind
Rem(k) == /\ m' = [x \in Dom \ {k} |-> m[x]]
          /\ res' = (IF kind = 0 THEN Value(k) ELSE Bool(k \in Dom)) /\ UNCHANGED kind
\* the j-th key of the driver's universe
KeyNo(j) == (j \div 3 + 1) * 100 + (j % 3)
InsN(j, n, v) == /\ LET q == [x \in {KeyNo(i) : i \in j..(j + n - 1)} |-> IF kind = 0 THEN v ELSE 0] IN m' = q @@ m
                 /\ res' = Unit /\ UNCHANGED kind
RemN(j, n) == /\ m' = [x \in Dom \ {KeyNo(i) : i \in j..(j + n - 1)} |-> m[x]]
              /\ res' = Unit /\ UNCHANGED kind
Get(k) == res' = (IF kind = 0 THEN Value(k) ELSE IF k \in Dom THEN Some(k) ELSE None) /\ Same
Has(k) == res' = Bool(k \in Dom) /\ Same
LenOp == res' = Int1(Cardinality(Dom)) /\ Same
IsEmpty == res' = Bool(Dom = {}) /\ Same
Clear == m' = EmptyFn /\ res' = Unit /\ UNCHANGED kind
FromSlice(q) == kind = 1 /\ m' = [k \in Range(q) |-> 0] /\ res' = Unit /\ UNCHANGED kind
\* q: pairs key, value one after another
Entries(q) == /\ Len(q) = 2 * Cardinality(Dom)
              /\ \A i \in 1..(Len(q) \div 2) : q[2 * i - 1] \in Dom /\ q[2 * i] = m[q[2 * i - 1]]
              /\ Cardinality({q[2 * i - 1] : i \in 1..(Len(q) \div 2)}) = Cardinality(Dom)
Iter(q) == Entries(q) /\ res' = SeqR(q) /\ Same
Keys(q) == Len(q) = Cardinality(Dom) /\ Range(q) = Dom /\ res' = SeqR(q) /\ Same
Values(q) == /\ Len(q) = Cardinality(Dom)
             /\ \A x \in Range(q) \cup {m[k] : k \in Dom} : Count(q, x) = Cardinality({k \in Dom : m[k] = x})
             /\ res' = SeqR(q) /\ Same
Do(e) ==
  CASE e.op = "new"     -> New(e.a[1])
    [] e.op = "ins"     -> Ins(e.a[1], e.a[2])
    [] e.op = "rem"     -> Rem(e.a[1])
    [] e.op = "insn"    -> InsN(e.a[1], e.a[2], e.a[3])
    [] e.op = "remn"    -> RemN(e.a[1], e.a[2])
    [] e.op = "get"     -> Get(e.a[1])
    [] e.op = "has"     -> Has(e.a[1])
    [] e.op = "len"     -> LenOp
    [] e.op = "isempty" -> IsEmpty
    [] e.op = "clear"   -> Clear
    [] e.op = "fromslice" -> FromSlice(e.a)
    [] e.op \in {"iter", "asmap"}  -> Iter(e.v)
    [] e.op \in {"keys", "asslice"}  -> Keys(e.v)
    [] e.op = "values"  -> Values(e.v)
\* the driver looks up every key of its universe: keys and values found, in key order
SeesIn(mm, st) == /\ st[1] = <<Cardinality(DOMAIN mm)>>
                  /\ LET q == st[2] IN
                     /\ Len(q) = 2 * Cardinality(DOMAIN mm)
                     /\ \A i \in 1..(Len(q) \div 2) : /\ q[2 * i - 1] \in DOMAIN mm /\ q[2 * i] = mm[q[2 * i - 1]]
                                                      /\ i > 1 => q[2 * i - 3] < q[2 * i - 1]
=============================================================================
