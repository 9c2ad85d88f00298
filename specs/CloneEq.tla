------------------------------ MODULE CloneEq ------------------------------
(* C11: three containers of one kind, possibly nested.  A container is a      *)
(* sequence of rows; a row is what one element holds.  In maps and sets rows  *)
(* start with their key and stand in key order.  Copying a value in the       *)
(* specification shares nothing, so every aliasing of a clone shows as a      *)
(* change nobody made.                                                        *)
(* Kinds: sequences 0 Vec 1 VecDeque 2 LinkedList of numbers, 7 8 9 of        *)
(* vectors, 12 Vec of lists; sets 3 hash 5 ordered; maps 4 hash 6 ordered to  *)
(* numbers, 10 hash 11 ordered to vectors, 13 hash to hash sets; singletons   *)
(* 14 Option of vector 15 Pair of number and vector.                          *)
EXTENDS SeqOps, TextOps
VARIABLES kind, s, res
cvars == <<kind, s, res>>
Slots == 1..3
SeqKinds == {0, 1, 2, 7, 8, 9, 12}
MapKinds == {4, 6, 10, 11, 13}
SetKinds == {3, 5}
OneKinds == {14, 15}
Bag2 == {13}        \* the rest of the row is a set, listed in ascending order
Scalar == {0, 1, 2, 4, 6}
CanClone(k) == k \notin {6, 11}     \* an ordered map cannot be cloned
Init == kind = 0 /\ s = [i \in Slots |-> <<>>] /\ res = Unit
New(k) == kind' = k /\ s' = [i \in Slots |-> IF k = 15 THEN <<<<0>>>> ELSE <<>>] /\ res' = Unit
Put(i, q) == s' = [s EXCEPT ![i] = q] /\ UNCHANGED kind
PutR(i, q) == Put(i, q) /\ res' = Unit
PutIn(q, x) == LET Lo(y) == y < x Hi(y) == y > x IN SelectSeq(q, Lo) \o <<x>> \o SelectSeq(q, Hi)
RECURSIVE AsSet(_)
AsSet(q) == IF q = <<>> THEN <<>> ELSE PutIn(AsSet(Tail(q)), Head(q))
Row(k, r) == <<k>> \o (IF kind \in Bag2 THEN AsSet(r) ELSE r)
KeyLt(q, k) == LET P(r) == r[1] < k IN SelectSeq(q, P)
KeyGt(q, k) == LET P(r) == r[1] > k IN SelectSeq(q, P)
KeyEq(q, k) == LET P(r) == r[1] = k IN SelectSeq(q, P)
Add(i, r)  == kind \in SeqKinds /\ PutR(i, Append(s[i], r))
AddF(i, r) == kind \in SeqKinds /\ PutR(i, <<r>> \o s[i])
PopB(i) == kind \in SeqKinds /\ PutR(i, IF s[i] = <<>> THEN s[i] ELSE Front1(s[i]))
PopF(i) == kind \in {1, 2, 8, 9} /\ PutR(i, IF s[i] = <<>> THEN s[i] ELSE Tail(s[i]))
PutK(i, k, r) == \/ kind \in MapKinds /\ PutR(i, KeyLt(s[i], k) \o <<Row(k, r)>> \o KeyGt(s[i], k))
                 \/ kind \in SetKinds /\ PutR(i, KeyLt(s[i], k) \o <<<<k>>>> \o KeyGt(s[i], k))
                 \/ kind \in OneKinds /\ PutR(i, <<IF kind = 15 THEN <<k>> \o r ELSE r>>)
DelK(i, k) == \/ kind \in MapKinds \cup SetKinds /\ PutR(i, KeyLt(s[i], k) \o KeyGt(s[i], k))
              \/ kind = 14 /\ PutR(i, <<>>)
Range2(i, n, from, by) ==
  \/ kind \in {0, 1, 2} /\ PutR(i, [j \in 1..n |-> <<from + (j - 1) * by>>])
  \/ kind \in {3, 5} /\ PutR(i, [j \in 1..n |-> <<from + (j - 1) * by>>])
  \/ kind \in {4, 6} /\ PutR(i, [j \in 1..n |-> <<from + (j - 1) * by, j>>])
\* Poke(i, j, x): write x into element j in place (into its first place if it
\* is itself a container; a set gains x)
Poke(i, j, x) ==
  \/ kind \in SeqKinds /\ j \in 1..Len(s[i]) /\ s[i][j] # <<>> /\ PutR(i, [s[i] EXCEPT ![j] = <<x>> \o Tail(s[i][j])])
  \/ /\ kind \in MapKinds /\ KeyEq(s[i], j) # <<>>
     /\ LET r == KeyEq(s[i], j)[1]
            t == IF kind \in Bag2 THEN Row(r[1], Append(Tail(r), x)) ELSE <<r[1], x>> \o SubSeq(r, 3, Len(r))
        IN (kind \in Bag2 \/ Len(r) >= 2) /\ PutR(i, KeyLt(s[i], j) \o <<t>> \o KeyGt(s[i], j))
  \/ kind = 14 /\ s[i] # <<>> /\ s[i][1] # <<>> /\ PutR(i, <<<<x>> \o Tail(s[i][1])>>)
  \/ kind = 15 /\ Len(s[i][1]) >= 2 /\ PutR(i, <<<<s[i][1][1], x>> \o SubSeq(s[i][1], 3, Len(s[i][1]))>>)
Clear(i) == kind \notin OneKinds /\ PutR(i, <<>>)
CloneOp(i, k) == CanClone(kind) /\ PutR(k, s[i])
EqOp(i, k) == res' = Bool(s[i] = s[k]) /\ UNCHANGED <<kind, s>>
RoomFor(i, n) == kind \in {0, 1, 7, 8, 12} /\ PutR(i, s[i])
Do(e) ==
  CASE e.op = "new"   -> New(e.a[1])
    [] e.op = "add"   -> Add(e.a[1], Tail(e.a))
    [] e.op = "addf"  -> AddF(e.a[1], Tail(e.a))
    [] e.op = "popb"  -> PopB(e.a[1])
    [] e.op = "popf"  -> PopF(e.a[1])
    [] e.op = "put"   -> PutK(e.a[1], e.a[2], SubSeq(e.a, 3, Len(e.a)))
    [] e.op = "del"   -> DelK(e.a[1], e.a[2])
    [] e.op = "range" -> Range2(e.a[1], e.a[2], e.a[3], e.a[4])
    [] e.op = "poke"  -> Poke(e.a[1], e.a[2], e.a[3])
    [] e.op = "clear" -> Clear(e.a[1])
    \* rebuilt from its entries where it cannot be cloned
    [] e.op = "same"  -> ~CanClone(kind) /\ PutR(e.a[2], s[e.a[1]])
    [] e.op = "clone" -> CloneOp(e.a[1], e.a[2])
    [] e.op = "eq"    -> EqOp(e.a[1], e.a[2])
    \* going on with what a reference to it refers to
    [] e.op = "ref"   -> PutR(e.a[1], s[e.a[1]])
    [] e.op = "reserve" -> RoomFor(e.a[1], e.a[2])
RowsOf(q) == <<Len(q)>> \o Flat([j \in 1..Len(q) |-> <<Len(q[j])>> \o q[j]])
ObsOf(ss) == [i \in Slots |-> RowsOf(ss[i])]
=============================================================================
