-------------------------------- MODULE Vec --------------------------------
(* C01: a vector is an ideal sequence.  s is the vector, o a partner vector *)
(* of the same type, res the result of the last call.  One action per call; *)
(* e is the call record [op, a, v]; e.v is consulted only where the         *)
(* specification leaves the result open (capacities).                       *)
EXTENDS SeqOps

VARIABLES s, o, res
vvars == <<s, o, res>>

Init == s = <<>> /\ o = <<>> /\ res = Unit

New(mode, n, c) ==
  /\ s' = IF mode = 2 THEN [i \in 1..n |-> 0] ELSE <<>>
  /\ o' = <<>>
  /\ c >= Len(s') /\ (mode = 1 => c >= n)
  /\ res' = R("cap", <<c>>)
Push(x)      == s' = Append(s, x) /\ res' = Unit /\ UNCHANGED o
Pop          == /\ IF s = <<>> THEN s' = s /\ res' = None
                   ELSE s' = Front1(s) /\ res' = Some(s[Len(s)])
                /\ UNCHANGED o
\* x, x, .., x + 1, x + 1, ..: n elements in runs of m
PushN(n, x, m) == s' = s \o [i \in 1..n |-> x + (i - 1) \div m] /\ res' = Unit /\ UNCHANGED o
PopN(n)      == LET k == Min2(n, Len(s)) IN
                /\ s' = SubSeq(s, 1, Len(s) - k) /\ UNCHANGED o
                /\ res' = SeqR([i \in 1..k |-> s[Len(s) + 1 - i]])
Insert(i, x) == i <= Len(s) /\ s' = InsertAt0(s, i, x) /\ res' = Unit /\ UNCHANGED o
\* an index no log can hold is written as a negative number: -i is 2^64 - i, -2^30 + i is 2^63 + i, -2^29 + i is 2^32 + i
Within(i)    == i >= 0 /\ i < Len(s)
Get(i)       == res' = (IF Within(i) THEN Some(s[i + 1]) ELSE None) /\ UNCHANGED <<s, o>>
GetUn(i)     == i < Len(s) /\ res' = Int1(s[i + 1]) /\ UNCHANGED <<s, o>>
\* a checked write outside the sequence hands the value back and stores nothing
Set(i, x)    == /\ IF Within(i) THEN s' = [s EXCEPT ![i + 1] = x] /\ res' = None
                   ELSE s' = s /\ res' = Some(x)
                /\ UNCHANGED o
SetUn(i, x)  == i < Len(s) /\ s' = [s EXCEPT ![i + 1] = x] /\ res' = Unit /\ UNCHANGED o
Swap(i, j)   == i < Len(s) /\ j < Len(s) /\ s' = SwapAt0(s, i, j) /\ res' = Unit /\ UNCHANGED o
Reverse      == s' = Rev(s) /\ res' = Unit /\ UNCHANGED o
Retain(m, r) == s' = SelectSeq(s, LAMBDA x : Key(x) % m = r) /\ res' = Unit /\ UNCHANGED o
Dedup        == s' = DedupBy(s, LAMBDA x : x) /\ res' = Unit /\ UNCHANGED o
DedupKey(m)  == s' = DedupBy(s, LAMBDA x : Key(x) % m) /\ res' = Unit /\ UNCHANGED o
Contains(x)  == res' = Bool(x \in Range(s)) /\ UNCHANGED <<s, o>>
Fill(x)      == s' = [i \in 1..Len(s) |-> x] /\ res' = Unit /\ UNCHANGED o
FillWith(x)  == s' = [i \in 1..Len(s) |-> x + i - 1] /\ res' = Unit /\ UNCHANGED o
AppendO      == s' = s \o o /\ o' = <<>> /\ res' = Unit
Xchg         == s' = o /\ o' = s /\ res' = Unit
Clear        == s' = <<>> /\ res' = Unit /\ UNCHANGED o
Reserve(n, c) == c >= Len(s) + n /\ res' = R("cap", <<c>>) /\ UNCHANGED <<s, o>>
Capacity(c)  == c >= Len(s) /\ res' = R("cap", <<c>>) /\ UNCHANGED <<s, o>>
LenOp        == res' = Int1(Len(s)) /\ UNCHANGED <<s, o>>
IsEmpty      == res' = Bool(s = <<>>) /\ UNCHANGED <<s, o>>
Read         == res' = SeqR(s) /\ UNCHANGED <<s, o>>

Do(e) ==
  CASE e.op = "new"      -> New(e.a[2], e.a[3], e.v[1])
    [] e.op = "push"     -> Push(e.a[1])
    [] e.op = "pop"      -> Pop
    [] e.op = "pushn"    -> PushN(e.a[1], e.a[2], e.a[3])
    [] e.op = "popn"     -> PopN(e.a[1])
    [] e.op = "insert"   -> Insert(e.a[1], e.a[2])
    [] e.op = "get"      -> Get(e.a[1])
    [] e.op = "getun"    -> GetUn(e.a[1])
    [] e.op = "set"      -> Set(e.a[1], e.a[2])
    [] e.op = "setun"    -> SetUn(e.a[1], e.a[2])
    [] e.op = "swap"     -> Swap(e.a[1], e.a[2])
    [] e.op = "reverse"  -> Reverse
    [] e.op = "retain"   -> Retain(e.a[1], e.a[2])
    [] e.op = "dedup"    -> Dedup
    [] e.op = "dedupkey" -> DedupKey(e.a[1])
    [] e.op = "contains" -> Contains(e.a[1])
    [] e.op = "fill"     -> Fill(e.a[1])
    [] e.op = "fillwith" -> FillWith(e.a[1])
    [] e.op = "append"   -> AppendO
    [] e.op = "xchg"     -> Xchg
    [] e.op = "clear"    -> Clear
    [] e.op = "reserve"  -> Reserve(e.a[1], e.v[1])
    [] e.op = "capacity" -> Capacity(e.v[1])
    [] e.op = "len"      -> LenOp
    [] e.op = "isempty"  -> IsEmpty
    [] e.op = "asslice"  -> Read
    [] e.op = "iter"     -> Read
Obs == <<s, o>>
=============================================================================
