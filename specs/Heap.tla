-------------------------------- MODULE Heap --------------------------------
(* C09: a priority queue is a bag of elements; s and o (the partner of an    *)
(* append) list theirs in ascending order of the numbers.  Elements of equal *)
(* rank may leave in any order, so a pop names the element that left.         *)
EXTENDS SeqOps
VARIABLES s, o, ty, res
hvars == <<s, o, ty, res>>
Rank(x) == IF ty = 0 THEN Key(x) ELSE x
Put(q, x) == LET Less(y) == y <= x  More(y) == y > x IN SelectSeq(q, Less) \o <<x>> \o SelectSeq(q, More)
Out(q, x) == LET i == CHOOSE i \in 1..Len(q) : q[i] = x IN SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
RECURSIVE PutAll(_, _)
PutAll(q, p) == IF p = <<>> THEN q ELSE PutAll(Put(q, Head(p)), Tail(p))
Init == s = <<>> /\ o = <<>> /\ ty = 0 /\ res = Unit
Same == UNCHANGED <<s, o, ty>>
New(t, mode, n) == s' = (IF mode = 2 THEN [i \in 1..n |-> 0] ELSE <<>>) /\ o' = <<>> /\ ty' = t /\ res' = Unit
Push(x) == s' = Put(s, x) /\ res' = Unit /\ UNCHANGED <<o, ty>>
\* x, x + d, x + 2d, ..: n elements
PushN(n, x, d) == s' = PutAll(s, [i \in 1..n |-> x + (i - 1) * d]) /\ res' = Unit /\ UNCHANGED <<o, ty>>
RECURSIVE OutAll(_, _)
OutAll(q, p) == IF p = <<>> THEN q ELSE OutAll(Out(q, Head(p)), Tail(p))
\* a: what n pops returned, one after another
PopN(n, a) == /\ Len(a) = Min2(n, Len(s)) /\ \A x \in Range(a) : Count(a, x) <= Count(s, x)
              /\ \A i \in 1..(Len(a) - 1) : Rank(a[i]) >= Rank(a[i + 1])
              /\ s' = OutAll(s, a)
              /\ a # <<>> => \A x \in Range(s') : Rank(x) <= Rank(a[Len(a)])
              /\ res' = SeqR(a) /\ UNCHANGED <<o, ty>>
Greatest(x) == x \in Range(s) /\ \A y \in Range(s) : Rank(y) <= Rank(x)
\* a: what the pop returned
Pop(a) == /\ IF s = <<>> THEN a = <<>> /\ s' = s
             ELSE Len(a) = 1 /\ Greatest(a[1]) /\ s' = Out(s, a[1])
          /\ res' = R("opt", a) /\ UNCHANGED <<o, ty>>
Append2 == s' = PutAll(s, o) /\ o' = <<>> /\ res' = Unit /\ UNCHANGED ty
Xchg == s' = o /\ o' = s /\ res' = Unit /\ UNCHANGED ty
Clear == s' = <<>> /\ res' = Unit /\ UNCHANGED <<o, ty>>
LenOp == res' = Int1(Len(s)) /\ Same
IsEmpty == res' = Bool(s = <<>>) /\ Same
\* reserving answers with the capacity afterwards
Reserve(n, v) == Len(v) = 1 /\ v[1] >= Len(s) + n /\ res' = R("cap", v) /\ Same
Capacity(v) == Len(v) = 1 /\ v[1] >= Len(s) /\ res' = R("cap", v) /\ Same
AsSlice(q) == SameBag(s, q) /\ res' = SeqR(q) /\ Same
\* conversions consume the queue: the driver goes on with an empty one
IntoVec(q) == SameBag(s, q) /\ res' = SeqR(q) /\ s' = <<>> /\ UNCHANGED <<o, ty>>
IntoSorted(q) == SortOf(s, q, Rank) /\ res' = SeqR(q) /\ s' = <<>> /\ UNCHANGED <<o, ty>>
Do(e) ==
  CASE e.op = "new"     -> New(e.a[1], e.a[2], e.a[3])
    [] e.op = "push"    -> Push(e.a[1])
    [] e.op = "pop"     -> Pop(e.v)
    [] e.op = "pushn"   -> PushN(e.a[1], e.a[2], e.a[3])
    [] e.op = "popn"    -> PopN(e.a[1], e.v)
    [] e.op = "append"  -> Append2
    [] e.op = "xchg"    -> Xchg
    [] e.op = "clear"   -> Clear
    [] e.op = "len"     -> LenOp
    [] e.op = "isempty" -> IsEmpty
    [] e.op = "reserve" -> Reserve(e.a[1], e.v)
    [] e.op = "capacity" -> Capacity(e.v)
    [] e.op = "asslice" -> AsSlice(e.v)
    [] e.op = "intovec" -> IntoVec(e.v)
    [] e.op = "intosorted" -> IntoSorted(e.v)
Obs == <<s, o>>
=============================================================================
