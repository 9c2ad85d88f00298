----------------------------- MODULE HeapArray -----------------------------
(* The design behind BinaryHeap: an array in which no element exceeds its     *)
(* parent; push sifts the new last element up, pop moves the last element to *)
(* the root, sifts it down to the bottom and up again.  Checked: the array    *)
(* keeps its order and every step refines Heap.  Prints scripts.              *)
EXTENDS SeqOps, TLC, Json
CONSTANTS Elems, MaxLen, MaxO, Depth
VARIABLES a, b, sa, sb, res, hist     \* sa, sb: the elements of a, b in ascending order
vars == <<a, b, sa, sb, res, hist>>
C(op, x) == [op |-> op, a |-> x]
RECURSIVE Sorted(_)
Sorted(p) == IF p = <<>> THEN <<>> ELSE
             LET x == p[1] Below(y) == y < x Above(y) == y > x Same(y) == y = x IN
             Sorted(SelectSeq(p, Below)) \o SelectSeq(p, Same) \o Sorted(SelectSeq(p, Above))
H == INSTANCE Heap WITH s <- sa, o <- sb, ty <- 0, res <- res
Swap(q, i, j) == [q EXCEPT ![i] = q[j], ![j] = q[i]]
RECURSIVE Up(_, _)
Up(q, i) == IF i = 1 \/ Key(q[i]) <= Key(q[i \div 2]) THEN q ELSE Up(Swap(q, i, i \div 2), i \div 2)
\* to the bottom, always along the greater child (the right one on a tie)
RECURSIVE Down(_, _)
Down(q, i) == IF 2 * i > Len(q) THEN Up(q, i)
              ELSE LET c == IF 2 * i + 1 <= Len(q) /\ Key(q[2 * i]) <= Key(q[2 * i + 1]) THEN 2 * i + 1 ELSE 2 * i
                   IN Down(Swap(q, i, c), c)
PushA(q, x) == Up(Append(q, x), Len(q) + 1)
PopA(q) == IF Len(q) = 1 THEN <<>> ELSE Down([Front1(q) EXCEPT ![1] = q[Len(q)]], 1)
RECURSIVE PushAllA(_, _)
PushAllA(q, p) == IF p = <<>> THEN q ELSE PushAllA(PushA(q, Head(p)), Tail(p))
RECURSIVE Drain(_)
Drain(q) == IF q = <<>> THEN <<>> ELSE Append(Drain(PopA(q)), q[1])
Calls == {C("push", <<x>>) : x \in Elems} \cup {C(op, <<>>) : op \in {"pop", "append", "xchg", "clear", "len", "isempty", "asslice", "intovec", "intosorted"}}
         \cup {C("reserve", <<3>>)}
Step(e) ==
  CASE e.op = "push" -> a' = PushA(a, e.a[1]) /\ b' = b /\ res' = Unit
    [] e.op = "pop"  -> a' = (IF a = <<>> THEN a ELSE PopA(a)) /\ b' = b /\ res' = (IF a = <<>> THEN None ELSE Some(a[1]))
    [] e.op = "append" -> a' = PushAllA(a, b) /\ b' = <<>> /\ res' = Unit
    [] e.op = "xchg" -> a' = b /\ b' = a /\ res' = Unit
    [] e.op = "clear" -> a' = <<>> /\ b' = b /\ res' = Unit
    [] e.op = "len" -> res' = Int1(Len(a)) /\ UNCHANGED <<a, b>>
    [] e.op = "isempty" -> res' = Bool(a = <<>>) /\ UNCHANGED <<a, b>>
    [] e.op = "reserve" -> res' = R("cap", <<Len(a) + e.a[1]>>) /\ UNCHANGED <<a, b>>
    [] e.op = "asslice" -> res' = SeqR(a) /\ UNCHANGED <<a, b>>
    [] e.op = "intovec" -> res' = SeqR(a) /\ a' = <<>> /\ b' = b
    [] e.op = "intosorted" -> res' = SeqR(Drain(a)) /\ a' = <<>> /\ b' = b
Init == a = <<>> /\ b = <<>> /\ sa = <<>> /\ sb = <<>> /\ res = Unit /\ hist = <<>>
Next == /\ IF hist = <<>> THEN hist' = <<C("new", <<0, 0, 0>>)>> /\ a' = <<>> /\ b' = <<>> /\ res' = Unit
           ELSE \E e \in Calls : Step(e) /\ hist' = Append(hist, e)
        /\ sa' = Sorted(a') /\ sb' = Sorted(b')
Spec == Init /\ [][Next]_vars
Bound == Len(a) <= MaxLen /\ Len(b) <= MaxO /\ Len(hist) <= Depth
View == <<a, b, hist = <<>>>>

Emit == Bound' => PrintT("SCRIPT " \o ToJson(hist'))
HeapOrder == \A q \in {a, b} : \A i \in 2..Len(q) : Key(q[i]) <= Key(q[i \div 2])
\* the last call with the result as its witness
Last == LET e == hist'[Len(hist')] IN [op |-> e.op, a |-> e.a, v |-> res'.v]
Refines == [][H!Do(Last)]_vars
=============================================================================
