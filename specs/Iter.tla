-------------------------------- MODULE Iter --------------------------------
(* C10: iterators over a container.  cont is the container's contents (in     *)
(* order where the kind has one), and each of two slots holds an iterator:    *)
(* the elements it has not yet yielded and whether their order is fixed (the  *)
(* hash kinds leave it open, so there what was yielded is a parameter).       *)
(* Kinds: 0 vector 1 deque 2 list 3 hash set 4 hash map entries 5 its keys    *)
(* 6 its values 7 ordered set 8 ordered map entries 9 its keys 10 its values. *)
(* out is what the last collection produced (a vector or a list): it and the *)
(* container are independent of each other.                                   *)
EXTENDS SeqOps
VARIABLES kind, cont, it, res, out
ivars == <<kind, cont, it, res, out>>
Dead == [live |-> FALSE, rem |-> <<>>, ord |-> TRUE]
On(q, fixed) == [live |-> TRUE, rem |-> q, ord |-> fixed]
Fixed(k) == k \notin 3..6
RECURSIVE Asc(_)
Asc(q) == IF q = <<>> THEN <<>> ELSE
          LET Lo(y) == y < q[1] Hi(y) == y > q[1] IN Asc(SelectSeq(q, Lo)) \o <<q[1]>> \o Asc(SelectSeq(q, Hi))
Init == kind = 0 /\ cont = <<>> /\ it = <<Dead, Dead>> /\ res = Unit /\ out = <<>>
\* the elements a container of the kind holds after loading q (distinct in sets and as keys)
New(k, q) == /\ kind' = k /\ cont' = (IF k \in {7, 8, 9} THEN Asc(q) ELSE q)
             /\ it' = <<Dead, Dead>> /\ res' = Unit
Same == UNCHANGED <<kind, cont>>
Put(i, x) == it' = [it EXCEPT ![i] = x]
\* an adaptor consumes the iterator in slot i; what it returns goes to slot k
Move(i, k, x) == it' = [[it EXCEPT ![i] = Dead] EXCEPT ![k] = x]
Into(i) == Put(i, On(cont, Fixed(kind))) /\ res' = Unit /\ Same
Without(q, x) == LET i == CHOOSE i \in 1..Len(q) : q[i] = x IN SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
Next(i, v) == LET t == it[i] IN
  /\ t.live /\ Same /\ res' = R("opt", v)
  /\ IF t.rem = <<>> THEN v = <<>> /\ it' = it
     ELSE /\ Len(v) = 1
          /\ IF t.ord THEN v[1] = t.rem[1] ELSE v[1] \in Range(t.rem)
          /\ Put(i, [t EXCEPT !.rem = IF t.ord THEN Tail(t.rem) ELSE Without(t.rem, v[1])])
\* q is how the adaptor met the remaining elements
Met(i, q) == it[i].live /\ (IF it[i].ord THEN q = it[i].rem ELSE SameBag(q, it[i].rem))
Fn(f, x) == CASE f = 0 -> x + 7 [] f = 1 -> 5 [] f = 2 -> x % 3 [] OTHER -> x
Mix(acc, x) == (acc * 31 + x) % 10007
RECURSIVE Folded(_, _)
Folded(q, acc) == IF q = <<>> THEN acc ELSE Folded(Tail(q), Mix(acc, Head(q)))
MapOp(i, k, f, q) == Met(i, q) /\ Move(i, k, On([j \in 1..Len(q) |-> Fn(f, q[j])], TRUE)) /\ res' = Unit /\ Same
Filter(i, k, m, r, q) == LET P(x) == x % m = r IN
  Met(i, q) /\ Move(i, k, On(SelectSeq(q, P), TRUE)) /\ res' = Unit /\ Same
Fold(i, init, q) == Met(i, q) /\ Put(i, Dead) /\ res' = Int1(Folded(q, init)) /\ Same
RevOp(i, k) == it[i].live /\ Move(i, k, On(Rev(it[i].rem), it[i].ord)) /\ res' = Unit /\ Same
Collect(i, q) == Met(i, q) /\ Put(i, Dead) /\ res' = SeqR(q) /\ Same
\* changing the collected vector, and the container
Poke(j, v) == out # <<>> /\ out' = [out EXCEPT ![1 + (j % Len(out))] = v] /\ UNCHANGED it /\ res' = Unit /\ Same
Grow(v) == out' = Append(out, v) /\ UNCHANGED it /\ res' = Unit /\ Same
Spoil(v) == /\ kind \in 0..2 /\ ~it[1].live /\ ~it[2].live /\ cont' = [j \in 1..Len(cont) |-> v]
            /\ res' = Unit /\ UNCHANGED <<kind, it, out>>
\* c: the elements the call's function was given, in order
Change(e, c) ==
  CASE e.op = "new"     -> New(e.a[1], SubSeq(e.a, 3, Len(e.a)))
    [] e.op = "into"    -> Into(e.a[1])
    [] e.op = "next"    -> Next(e.a[1], e.v)
    [] e.op = "map"     -> MapOp(e.a[1], e.a[2], e.a[3], c)
    [] e.op = "filter"  -> Filter(e.a[1], e.a[2], e.a[3], e.a[4], c)
    [] e.op = "fold"    -> Fold(e.a[1], e.a[2], c)
    [] e.op = "rev"     -> RevOp(e.a[1], e.a[2])
    [] e.op \in {"collect", "collectlist"} -> Collect(e.a[1], e.v)
Do(e, c) ==
  CASE e.op = "poke"  -> Poke(e.a[1], e.a[2])
    [] e.op = "grow"  -> Grow(e.a[1])
    [] e.op = "spoil" -> Spoil(e.a[1])
    [] OTHER -> Change(e, c) /\ out' = (CASE e.op = "new" -> <<>> [] e.op \in {"collect", "collectlist"} -> e.v [] OTHER -> out)
UsesFn(e) == e.op \in {"map", "filter", "fold"}
=============================================================================
