------------------------------- MODULE BTree -------------------------------
(* The design behind BTreeMap: a B-tree of minimum degree T with insertion   *)
(* that splits full nodes on the way down and removal that refills thin      *)
(* children on the way down (borrow from the previous or next sibling, or    *)
(* merge).  A node is [k |-> keys, v |-> values, c |-> children].  Checked:    *)
(* every node's occupancy, equal leaf depth, key order, and refinement of    *)
(* OMap.  Its histories are replayed on the real code with the keys spread    *)
(* so that, at the code's own degree, the same case is met (see Pad).        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS T
Cap == 2 * T - 1
Leaf(n) == n.c = <<>>
N(ks, vs, cs) == [k |-> ks, v |-> vs, c |-> cs]
Nil == N(<<>>, <<>>, <<>>)
InsAt(q, i, x) == SubSeq(q, 1, i - 1) \o <<x>> \o SubSeq(q, i, Len(q))        \* becomes position i
DelAt(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
\* first position whose key is >= x (Len + 1 if none)
Pos(n, x) == 1 + Cardinality({i \in 1..Len(n.k) : n.k[i] < x})
Hit(n, x) == Pos(n, x) <= Len(n.k) /\ n.k[Pos(n, x)] = x

RECURSIVE ValueIn(_, _)
ValueIn(n, x) == IF Hit(n, x) THEN <<n.v[Pos(n, x)]>> ELSE IF Leaf(n) THEN <<>> ELSE ValueIn(n.c[Pos(n, x)], x)

RECURSIVE Update(_, _, _)
Update(n, x, y) == IF Hit(n, x) THEN [n EXCEPT !.v[Pos(n, x)] = y]
                   ELSE [n EXCEPT !.c[Pos(n, x)] = Update(n.c[Pos(n, x)], x, y)]

\* split the full child i
Split(n, i) ==
  LET y == n.c[i]
      left  == N(SubSeq(y.k, 1, T - 1), SubSeq(y.v, 1, T - 1), IF Leaf(y) THEN <<>> ELSE SubSeq(y.c, 1, T))
      right == N(SubSeq(y.k, T + 1, Cap), SubSeq(y.v, T + 1, Cap), IF Leaf(y) THEN <<>> ELSE SubSeq(y.c, T + 1, 2 * T))
  IN N(InsAt(n.k, i, y.k[T]), InsAt(n.v, i, y.v[T]), InsAt([n.c EXCEPT ![i] = left], i + 1, right))
RECURSIVE InsertNonFull(_, _, _)
InsertNonFull(n, x, y) ==
  LET p == Pos(n, x) IN
  IF Leaf(n) THEN N(InsAt(n.k, p, x), InsAt(n.v, p, y), <<>>)
  ELSE IF Len(n.c[p].k) < Cap THEN [n EXCEPT !.c[p] = InsertNonFull(n.c[p], x, y)]
  ELSE LET m == Split(n, p)  q == Pos(m, x) IN [m EXCEPT !.c[q] = InsertNonFull(m.c[q], x, y)]
Insert(root, x, y) ==
  IF ValueIn(root, x) # <<>> THEN Update(root, x, y)
  ELSE IF Len(root.k) < Cap THEN InsertNonFull(root, x, y)
  ELSE InsertNonFull(Split(N(<<>>, <<>>, <<root>>), 1), x, y)

BorrowPrev(n, i) == LET l == n.c[i - 1]  r == n.c[i] IN
  N([n.k EXCEPT ![i - 1] = l.k[Len(l.k)]], [n.v EXCEPT ![i - 1] = l.v[Len(l.v)]],
    [n.c EXCEPT ![i - 1] = N(DelAt(l.k, Len(l.k)), DelAt(l.v, Len(l.v)), IF Leaf(l) THEN <<>> ELSE DelAt(l.c, Len(l.c))),
                ![i] = N(<<n.k[i - 1]>> \o r.k, <<n.v[i - 1]>> \o r.v, IF Leaf(r) THEN <<>> ELSE <<l.c[Len(l.c)]>> \o r.c)])
BorrowNext(n, i) == LET l == n.c[i]  r == n.c[i + 1] IN
  N([n.k EXCEPT ![i] = r.k[1]], [n.v EXCEPT ![i] = r.v[1]],
    [n.c EXCEPT ![i + 1] = N(Tail(r.k), Tail(r.v), IF Leaf(r) THEN <<>> ELSE Tail(r.c)),
                ![i] = N(Append(l.k, n.k[i]), Append(l.v, n.v[i]), IF Leaf(l) THEN <<>> ELSE Append(l.c, r.c[1]))])
Merge(n, i) == LET l == n.c[i]  r == n.c[i + 1] IN
  N(DelAt(n.k, i), DelAt(n.v, i),
    DelAt([n.c EXCEPT ![i] = N(l.k \o <<n.k[i]>> \o r.k, l.v \o <<n.v[i]>> \o r.v, l.c \o r.c)], i + 1))
RECURSIVE MaxOf(_)
MaxOf(n) == IF Leaf(n) THEN <<n.k[Len(n.k)], n.v[Len(n.v)]>> ELSE MaxOf(n.c[Len(n.c)])
RECURSIVE MinOf(_)
MinOf(n) == IF Leaf(n) THEN <<n.k[1], n.v[1]>> ELSE MinOf(n.c[1])
RECURSIVE Del(_, _)
Del(n, x) ==
  LET p == Pos(n, x) IN
  IF Leaf(n) THEN (IF Hit(n, x) THEN N(DelAt(n.k, p), DelAt(n.v, p), <<>>) ELSE n)
  ELSE IF Hit(n, x) THEN
    IF Len(n.c[p].k) >= T
    THEN LET m == MaxOf(n.c[p]) IN N([n.k EXCEPT ![p] = m[1]], [n.v EXCEPT ![p] = m[2]], [n.c EXCEPT ![p] = Del(n.c[p], m[1])])
    ELSE IF Len(n.c[p + 1].k) >= T
    THEN LET m == MinOf(n.c[p + 1]) IN N([n.k EXCEPT ![p] = m[1]], [n.v EXCEPT ![p] = m[2]], [n.c EXCEPT ![p + 1] = Del(n.c[p + 1], m[1])])
    ELSE LET m == Merge(n, p) IN [m EXCEPT !.c[p] = Del(m.c[p], x)]
  ELSE IF Len(n.c[p].k) >= T THEN [n EXCEPT !.c[p] = Del(n.c[p], x)]
  ELSE IF p > 1 /\ Len(n.c[p - 1].k) >= T
       THEN LET m == BorrowPrev(n, p) IN [m EXCEPT !.c[p] = Del(m.c[p], x)]
  ELSE IF p <= Len(n.k) /\ Len(n.c[p + 1].k) >= T
       THEN LET m == BorrowNext(n, p) IN [m EXCEPT !.c[p] = Del(m.c[p], x)]
  ELSE LET j == IF p <= Len(n.k) THEN p ELSE p - 1
           m == Merge(n, j) IN [m EXCEPT !.c[j] = Del(m.c[j], x)]
Delete(root, x) ==
  LET r == Del(root, x) IN IF r.k = <<>> /\ ~Leaf(r) THEN r.c[1] ELSE r

\* the cases a deletion or insertion of x meets on its way, for coverage
RECURSIVE CasesDel(_, _)
CasesDel(n, x) ==
  LET p == Pos(n, x) IN
  IF Leaf(n) THEN {IF Hit(n, x) THEN "leaf" ELSE "absent"}
  ELSE LET in == IF Leaf(n.c[p]) THEN "Leaf" ELSE "Inner" IN
  IF Hit(n, x) THEN
    IF Len(n.c[p].k) >= T THEN {"pred" \o in} \cup CasesDel(n.c[p], MaxOf(n.c[p])[1])
    ELSE IF Len(n.c[p + 1].k) >= T THEN {"succ" \o in} \cup CasesDel(n.c[p + 1], MinOf(n.c[p + 1])[1])
    ELSE {"mergeHit" \o in} \cup CasesDel(Merge(n, p).c[p], x)
  ELSE IF Len(n.c[p].k) >= T THEN CasesDel(n.c[p], x)
  ELSE IF p > 1 /\ Len(n.c[p - 1].k) >= T THEN {"borrowPrev" \o in} \cup CasesDel(BorrowPrev(n, p).c[p], x)
  ELSE IF p <= Len(n.k) /\ Len(n.c[p + 1].k) >= T THEN {"borrowNext" \o in} \cup CasesDel(BorrowNext(n, p).c[p], x)
  ELSE LET j == IF p <= Len(n.k) THEN p ELSE p - 1 IN
       {(IF j = p THEN "mergeNext" ELSE "mergePrev") \o in} \cup CasesDel(Merge(n, j).c[j], x)
RECURSIVE CasesIns(_, _)
CasesIns(n, x) ==
  LET p == Pos(n, x) IN
  IF Leaf(n) THEN {"leafInsert"}
  ELSE IF Len(n.c[p].k) < Cap THEN CasesIns(n.c[p], x)
  ELSE LET m == Split(n, p)  q == Pos(m, x) IN {IF Leaf(n.c[p]) THEN "splitLeaf" ELSE "splitInner"} \cup CasesIns(m.c[q], x)

RECURSIVE Content(_)
Content(n) == IF Leaf(n) THEN [i \in 1..Len(n.k) |-> <<n.k[i], n.v[i]>>]
              ELSE LET f[i \in 0..Len(n.c)] == IF i = 0 THEN <<>>
                         ELSE f[i - 1] \o Content(n.c[i]) \o (IF i <= Len(n.k) THEN <<<<n.k[i], n.v[i]>>>> ELSE <<>>)
                   IN f[Len(n.c)]
RECURSIVE Depths(_)
Depths(n) == IF Leaf(n) THEN {0} ELSE {1 + d : d \in UNION {Depths(n.c[i]) : i \in 1..Len(n.c)}}
RECURSIVE Occupied(_, _)
Occupied(n, isRoot) == /\ Len(n.k) <= Cap /\ (isRoot \/ Len(n.k) >= T - 1) /\ Len(n.v) = Len(n.k)
                       /\ Leaf(n) \/ (Len(n.c) = Len(n.k) + 1 /\ Len(n.k) >= 1 /\ \A i \in 1..Len(n.c) : Occupied(n.c[i], FALSE))
WellFormed(root) == LET q == Content(root) IN
  /\ Cardinality(Depths(root)) = 1 /\ Occupied(root, TRUE)
  /\ \A i \in 1..(Len(q) - 1) : q[i][1] < q[i + 1][1]
=============================================================================
