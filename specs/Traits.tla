------------------------------- MODULE Traits -------------------------------
(* C33: a container acts on its elements through the elements' own Clone, Eq, *)
(* Ord and Display, and refuses a call that needs one the element type lacks. *)
(* An element is a number.  Its Eq and Ord look at its class only, and Ord    *)
(* puts greater classes first; Clone gives the next number; Display writes    *)
(* the number in angle brackets.  So none of them is what the language itself *)
(* would do to the number.                                                    *)
(* Kinds: 0 Vec 1 VecDeque 2 LinkedList, 3 hash map and 4 ordered map from    *)
(* integers to elements, 5 HashSet 6 BTreeSet of elements, 7 BinaryHeap,      *)
(* 8 Option 9 Result, 10 Pair of two elements.                                *)
EXTENDS SeqOps, TextOps
VARIABLES kind, tc, tq, td, s, o, res
\* tc: has Clone; tq: 0 nothing, 1 Eq, 2 Eq and Ord; td: has Display
tvars == <<kind, tc, tq, td, s, o, res>>
Cls(x) == (x \div 10) % 5
Less(x, y) == Cls(x) > Cls(y)
Same == UNCHANGED <<kind, tc, tq, td>>
Still == Same /\ UNCHANGED <<s, o>>
Refused == R("refused", <<>>)
HasEq == tq >= 1
HasOrd == tq = 2
SeqKinds == {0, 1, 2}
MapKinds == {3, 4}
SetKinds == {5, 6}
\* what s and o hold: sequences of elements; maps: of <<key, element>> in key
\* order; sets and heaps: ascending by number; singletons: at most one element;
\* pairs: two
CanBe(k, q) == (k \in {6, 7} => q = 2)
Init == kind = 0 /\ tc = FALSE /\ tq = 0 /\ td = FALSE /\ s = <<>> /\ o = <<>> /\ res = Unit
New(k, c, q, d) == /\ CanBe(k, q) /\ kind' = k /\ tc' = (c = 1) /\ tq' = q /\ td' = (d = 1)
                   /\ s' = (IF k = 10 THEN <<10, 20>> ELSE <<>>) /\ o' = s' /\ res' = Unit
RECURSIVE SortedIn(_, _)
SortedIn(q, x) == LET Lo(y) == y < x  Hi(y) == y > x IN SelectSeq(q, Lo) \o <<x>> \o SelectSeq(q, Hi)
PutBag(q, x) == LET Lo(y) == y <= x  Hi(y) == y > x IN SelectSeq(q, Lo) \o <<x>> \o SelectSeq(q, Hi)
PutKey(q, k, x) == LET Lo(r) == r[1] < k  Hi(r) == r[1] > k IN SelectSeq(q, Lo) \o <<<<k, x>>>> \o SelectSeq(q, Hi)
\* an element of an ordered set stands for its class
Free(x) == kind = 6 => \A i \in 1..Len(s) : Cls(s[i]) # Cls(x)
Put(k, x) == /\ Same /\ UNCHANGED o /\ res' = Unit /\ Free(x)
             /\ s' = (CASE kind \in SeqKinds -> Append(s, x) [] kind \in MapKinds -> PutKey(s, k, x)
                        [] kind \in SetKinds -> SortedIn(s, x) [] kind = 7 -> PutBag(s, x)
                        [] kind \in {8, 9} -> <<x>> [] kind = 10 -> <<s[2], x>>)
Empty == kind # 10 /\ Same /\ UNCHANGED o /\ s' = <<>> /\ res' = Unit
Xchg == Same /\ s' = o /\ o' = s /\ res' = Unit
Up(q) == IF kind \in MapKinds THEN [i \in 1..Len(q) |-> <<q[i][1], q[i][2] + 1>>] ELSE [i \in 1..Len(q) |-> q[i] + 1]
\* an ordered map and a heap cannot be cloned
Clone == /\ kind \notin {4, 7}
         /\ IF s = <<>> \/ tc THEN o' = Up(s) /\ UNCHANGED s /\ Same /\ res' = Unit
            ELSE Still /\ res' = Refused
Elem(q, i) == IF kind \in MapKinds THEN q[i][2] ELSE q[i]
AllSame == \A i \in 1..Len(s) : Cls(Elem(s, i)) = Cls(Elem(o, i))
KeysSame == kind \in MapKinds => \A i \in 1..Len(s) : s[i][1] = o[i][1]
SetSame == {Cls(s[i]) : i \in 1..Len(s)} = {Cls(o[i]) : i \in 1..Len(o)}
\* w: what the call did, used only where a hash map may find a missing key or
\* an element it cannot compare first
Equal(w) == /\ kind \notin {5, 7} /\ Still
            /\ res' = (IF Len(s) # Len(o) THEN Bool(FALSE)
                       ELSE IF s = <<>> THEN Bool(TRUE)
                       ELSE IF kind = 6 THEN Bool(SetSame)
                       ELSE IF ~KeysSame THEN (IF HasEq \/ w.k = "bool" THEN Bool(FALSE) ELSE Refused)
                       ELSE IF HasEq THEN Bool(AllSame) ELSE Refused)
\* a vector whose elements have no Eq looks at the elements themselves
Contains(x, w) == /\ kind \in {0, 1} /\ Still
               /\ res' = (IF HasEq THEN Bool(\E i \in 1..Len(s) : Cls(s[i]) = Cls(x))
                          ELSE IF kind = 0 THEN Bool(x \in Range(s))
                          ELSE IF s = <<>> /\ w.k = "bool" THEN Bool(FALSE) ELSE Refused)
\* the first of each run of equal neighbours stays
Dedup == /\ kind \in {0, 1} /\ Same /\ UNCHANGED o
         /\ IF HasEq \/ kind = 0 \/ Len(s) < 2
            THEN s' = (IF HasEq THEN DedupBy(s, Cls) ELSE DedupBy(s, LAMBDA x : x)) /\ res' = Unit
            ELSE UNCHANGED s /\ res' = Refused
Sort(stable, t) == /\ kind \in {0, 1} /\ Same /\ UNCHANGED o
                   /\ IF HasOrd \/ Len(s) < 2
                      THEN /\ s' = t /\ res' = Unit
                           /\ IF stable THEN StableSortOf(s, t, LAMBDA x : 0 - Cls(x)) ELSE SortOf(s, t, LAMBDA x : 0 - Cls(x))
                      ELSE UNCHANGED s /\ res' = Refused
Ordered == \A i \in 1..(Len(s) - 1) : Cls(s[i]) >= Cls(s[i + 1])
Search(x, w) == /\ kind \in {0, 1} /\ Still
                /\ IF HasOrd
                   THEN IF ~Ordered THEN w.k = "opt" /\ res' = w
                        ELSE IF \E i \in 1..Len(s) : Cls(s[i]) = Cls(x)
                        THEN /\ w.k = "opt" /\ w.v # <<>> /\ w.v[1] + 1 \in 1..Len(s) /\ Cls(s[w.v[1] + 1]) = Cls(x) /\ res' = w
                        ELSE res' = None
                   ELSE res' = (IF s = <<>> THEN None ELSE Refused)
\* pairs: by the first elements, then the second
Compare == /\ kind = 10 /\ Still
           /\ res' = (IF ~HasOrd THEN Refused
                      ELSE LET i == IF Cls(s[1]) # Cls(o[1]) THEN 1 ELSE 2 IN
                           Int1(IF Less(s[i], o[i]) THEN -1 ELSE IF Less(o[i], s[i]) THEN 1 ELSE 0))
\* the heap gives up an element no other precedes: Ord is greatest
Pop(w) == /\ kind = 7 /\ Same /\ UNCHANGED o
          /\ IF s = <<>> THEN res' = None /\ UNCHANGED s
             ELSE /\ w.k = "opt" /\ w.v # <<>> /\ \E i \in 1..Len(s) :
                       /\ s[i] = w.v[1] /\ \A j \in 1..Len(s) : ~Less(s[i], s[j])
                       /\ s' = SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
                  /\ res' = w
\* ordered enumeration of an ordered set is by Ord
Enum == /\ kind = 6 /\ Still
        /\ \E t \in [1..Len(s) -> Range(s)] : /\ SortOf(s, t, LAMBDA x : 0 - Cls(x)) /\ res' = SeqR(t)
Text(x) == <<60>> \o Dec(x) \o <<62>>
Names == << <<86, 101, 99, 91>>, <<86, 101, 99, 68, 101, 113, 117, 101, 91>>, <<76, 105, 110, 107, 101, 100, 76, 105, 115, 116, 91>>,
            <<72, 97, 115, 104, 77, 97, 112, 123>>, <<66, 84, 114, 101, 101, 77, 97, 112, 123>>, <<72, 97, 115, 104, 83, 101, 116, 123>>, <<66, 84, 114, 101, 101, 83, 101, 116, 123>> >>
Piece(r) == IF kind \in MapKinds THEN Dec(r[1]) \o ColonSp \o Text(r[2]) ELSE Text(r)
Whole(q) == Names[kind + 1] \o JoinText([i \in 1..Len(q) |-> Piece(q[i])], CommaSp) \o (IF kind \in SeqKinds THEN <<93>> ELSE <<125>>)
Orders(q) == {[i \in 1..Len(q) |-> q[p[i]]] : p \in {f \in [1..Len(q) -> 1..Len(q)] : \A i, j \in 1..Len(q) : f[i] = f[j] => i = j}}
Single == IF s = <<>> THEN (IF kind = 8 THEN <<78, 111, 110, 101>> ELSE <<101>>)
          ELSE (IF kind = 8 THEN <<83, 111, 109, 101, 40>> ELSE <<79, 107, 40>>) \o Text(s[1]) \o <<41>>
Display(w) == /\ kind \notin {7, 10} /\ Still
              /\ IF s # <<>> /\ ~td THEN res' = Refused
                 ELSE IF kind \in {8, 9} THEN res' = R("text", Single)
                 ELSE IF kind \in {3, 5} THEN w.k = "text" /\ (\E t \in Orders(s) : w.v = Whole(t)) /\ res' = w
                 ELSE IF kind = 6 THEN w.k = "text" /\ (\E t \in Orders(s) : SortOf(s, t, LAMBDA x : 0 - Cls(x)) /\ w.v = Whole(t)) /\ res' = w
                 ELSE res' = R("text", Whole(s))
\* the outcomes the specification leaves open are in the call itself: w its
\* result, t the contents after it
Do(e, w, t) ==
  CASE e.op = "new"      -> New(e.a[1], e.a[2], e.a[3], e.a[4])
    [] e.op = "put"      -> Put(e.a[1], e.a[2])
    [] e.op = "empty"    -> Empty
    [] e.op = "xchg"     -> Xchg
    [] e.op = "clone"    -> Clone
    [] e.op = "eq"       -> Equal(w)
    [] e.op = "contains" -> Contains(e.a[1], w)
    [] e.op = "dedup"    -> Dedup
    [] e.op = "sort"     -> Sort(TRUE, t)
    [] e.op = "sortu"    -> Sort(FALSE, t)
    [] e.op = "search"   -> Search(e.a[1], w)
    [] e.op = "cmp"      -> Compare
    [] e.op = "pop"      -> Pop(w)
    [] e.op = "enum"     -> Enum
    [] e.op = "display"  -> Display(w)
FlatM(k, q) == IF k \in MapKinds THEN FlattenSeq(q) ELSE q
ObsOf(k, p, q) == <<FlatM(k, p), FlatM(k, q)>>
=============================================================================
