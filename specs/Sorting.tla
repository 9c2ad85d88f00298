------------------------------ MODULE Sorting ------------------------------
(* C02: sorting and binary search on a vector or deque.  cont: 0 vector, 1   *)
(* deque; ty: 0 items (natural order looks at the key only), otherwise the    *)
(* natural order is that of the number.  The outcome t of a sort is open     *)
(* where the specification leaves it open (unstable sorts).                  *)
EXTENDS SeqOps
VARIABLES s, cont, ty, res
svars == <<s, cont, ty, res>>

Nat0(x)     == IF ty = 0 THEN Key(x) ELSE x
Rank(m, x)  == CASE m = 1 -> 0 - Key(x) [] m = 2 -> Key(x) % 3 [] m = 3 -> x % 100 [] OTHER -> Key(x)

Init == s = <<>> /\ cont = 0 /\ ty = 0 /\ res = Unit
New(c, t)  == s' = <<>> /\ cont' = c /\ ty' = t /\ res' = Unit
Load(q)    == s' = q /\ res' = Unit /\ UNCHANGED <<cont, ty>>
More(q)    == s' = (IF cont = 0 THEN s \o q ELSE Rev(q) \o s) /\ res' = Unit /\ UNCHANGED <<cont, ty>>
RotR(n)    == /\ s' = IF s = <<>> THEN s
                      ELSE LET m == Len(s) - (n % Len(s)) IN SubSeq(s, m + 1, Len(s)) \o SubSeq(s, 1, m)
              /\ res' = Unit /\ UNCHANGED <<cont, ty>>
Sort(t)    == StableSortOf(s, t, Nat0) /\ s' = t /\ res' = Unit /\ UNCHANGED <<cont, ty>>
SortU(t)   == SortOf(s, t, Nat0) /\ s' = t /\ res' = Unit /\ UNCHANGED <<cont, ty>>
SortBy(m, t)  == StableSortOf(s, t, LAMBDA x : Rank(m, x)) /\ s' = t /\ res' = Unit /\ UNCHANGED <<cont, ty>>
SortUBy(m, t) == SortOf(s, t, LAMBDA x : Rank(m, x)) /\ s' = t /\ res' = Unit /\ UNCHANGED <<cont, ty>>
\* a: the answer, a 0-based position or nothing
Found(F(_), k, a) ==
  IF \E i \in 1..Len(s) : F(s[i]) = k
  THEN Len(a) = 1 /\ a[1] \in 0..(Len(s) - 1) /\ F(s[a[1] + 1]) = k
  ELSE a = <<>>
Search(x, a)  == SortedBy(s, Nat0) /\ Found(Nat0, Nat0(x), a) /\ res' = R("opt", a) /\ UNCHANGED <<s, cont, ty>>
SearchBy(m, k, a) == /\ SortedBy(s, LAMBDA x : Rank(m, x)) /\ Found(LAMBDA x : Rank(m, x), k, a)
                     /\ res' = R("opt", a) /\ UNCHANGED <<s, cont, ty>>
Do(e) ==
  CASE e.op = "new"     -> New(e.a[1], e.a[2])
    [] e.op = "load"    -> Load(e.a)
    [] e.op = "more"    -> More(e.a)
    [] e.op = "rot"     -> RotR(e.a[1])
    [] e.op = "sort"    -> Sort(e.s[1])
    [] e.op = "sortu"   -> SortU(e.s[1])
    [] e.op = "sortby"  -> SortBy(e.a[1], e.s[1])
    [] e.op = "sortuby" -> SortUBy(e.a[1], e.s[1])
    [] e.op = "bsearch" -> Search(e.a[1], e.v)
    [] e.op = "bsearchby" -> SearchBy(e.a[1], e.a[2], e.v)
Obs == <<s>>
=============================================================================
