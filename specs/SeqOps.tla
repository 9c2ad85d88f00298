------------------------------- MODULE SeqOps -------------------------------
(* Pure operators on sequences shared by the container specifications.      *)
(* Elements are integers K*100+T: K is what the order looks at, T is a tag   *)
(* that keeps equal-comparing elements distinguishable.                     *)
EXTENDS Integers, Sequences, FiniteSets

Key(x) == x \div 100
Min2(a, b) == IF a <= b THEN a ELSE b
Max2(a, b) == IF a >= b THEN a ELSE b

R(kind, val) == [k |-> kind, v |-> val]      \* a call's result
Unit     == R("unit", <<>>)
Bool(b)  == R("bool", IF b THEN <<1>> ELSE <<0>>)
Int1(n)  == R("int", <<n>>)
Some(x)  == R("opt", <<x>>)
None     == R("opt", <<>>)
SeqR(q)  == R("seq", q)
Panic    == R("panic", <<>>)

Range(q)     == {q[i] : i \in 1..Len(q)}
Rev(q)       == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
Map(q, F(_)) == [i \in 1..Len(q) |-> F(q[i])]
Keep(q, P(_)) == SelectSeq(q, P)
Front1(q)    == SubSeq(q, 1, Len(q) - 1)
InsertAt0(q, i, x) == SubSeq(q, 1, i) \o <<x>> \o SubSeq(q, i + 1, Len(q))   \* 0-based position
SwapAt0(q, i, j)   == [q EXCEPT ![i + 1] = q[j + 1], ![j + 1] = q[i + 1]]

\* Keep the first of every run of consecutive elements with equal image under F.
DedupBy(q, F(_)) ==
  LET idx == SelectSeq([i \in 1..Len(q) |-> i], LAMBDA i : i = 1 \/ F(q[i]) # F(q[i - 1]))
  IN  [j \in 1..Len(idx) |-> q[idx[j]]]

Count(q, x)  == Cardinality({i \in 1..Len(q) : q[i] = x})
SameBag(p, q) == Len(p) = Len(q) /\ \A x \in Range(p) : Count(p, x) = Count(q, x)

SortedBy(q, F(_)) == \A i \in 1..(Len(q) - 1) : F(q[i]) <= F(q[i + 1])
\* t is the stable ordering of q by F
StableSortOf(q, t, F(_)) ==
  /\ Len(t) = Len(q)
  /\ SortedBy(t, F)
  /\ \A kk \in {F(q[i]) : i \in 1..Len(q)} :
        SelectSeq(q, LAMBDA x : F(x) = kk) = SelectSeq(t, LAMBDA x : F(x) = kk)
SortOf(q, t, F(_)) == SortedBy(t, F) /\ SameBag(q, t)

IsSubseqOf(p, q) == \E f \in [1..Len(p) -> 1..Len(q)] :
                       /\ \A i \in 1..Len(p) : p[i] = q[f[i]]
                       /\ \A i \in 1..(Len(p) - 1) : f[i] < f[i + 1]
RECURSIVE SumSeq(_)
SumSeq(q) == IF q = <<>> THEN 0 ELSE Head(q) + SumSeq(Tail(q))
RECURSIVE FlattenSeq(_)
FlattenSeq(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o FlattenSeq(Tail(q))
=============================================================================
