------------------------------- MODULE Deque -------------------------------
(* C03: a double-ended queue is an ideal deque.  s is the queue, o a partner *)
(* queue of the same type, res the result of the last call.                 *)
EXTENDS SeqOps

VARIABLES s, o, res
dvars == <<s, o, res>>

Init == s = <<>> /\ o = <<>> /\ res = Unit

New(mode, n, c) ==
  /\ s' = IF mode = 2 THEN [i \in 1..n |-> 0] ELSE <<>>
  /\ o' = <<>>
  /\ c >= Len(s') /\ (mode = 1 => c >= n)
  /\ res' = R("cap", <<c>>)
PushB(x)     == s' = Append(s, x) /\ res' = Unit /\ UNCHANGED o
PushF(x)     == s' = <<x>> \o s /\ res' = Unit /\ UNCHANGED o
PopB         == /\ IF s = <<>> THEN s' = s /\ res' = None
                   ELSE s' = Front1(s) /\ res' = Some(s[Len(s)])
                /\ UNCHANGED o
PopF         == /\ IF s = <<>> THEN s' = s /\ res' = None
                   ELSE s' = Tail(s) /\ res' = Some(s[1])
                /\ UNCHANGED o
\* n times: pop at the front and push at the back
Rot(n)       == /\ s' = IF s = <<>> THEN s
                        ELSE LET m == n % Len(s) IN SubSeq(s, m + 1, Len(s)) \o SubSeq(s, 1, m)
                /\ res' = Unit /\ UNCHANGED o
\* x, x, .., x + 1, x + 1, ..: n elements in runs of m
PushN(n, x, m) == s' = s \o [i \in 1..n |-> x + (i - 1) \div m] /\ res' = Unit /\ UNCHANGED o
PopN(n)      == LET m == Min2(n, Len(s)) IN
                /\ s' = SubSeq(s, m + 1, Len(s)) /\ res' = SeqR(SubSeq(s, 1, m)) /\ UNCHANGED o
\* an index no log can hold is written as a negative number: -i is 2^64 - i, -2^30 + i is 2^63 + i, -2^29 + i is 2^32 + i
Within(i)    == i >= 0 /\ i < Len(s)
Get(i)       == res' = (IF Within(i) THEN Some(s[i + 1]) ELSE None) /\ UNCHANGED <<s, o>>
GetUn(i)     == i < Len(s) /\ res' = Int1(s[i + 1]) /\ UNCHANGED <<s, o>>
FrontOp      == res' = (IF s = <<>> THEN None ELSE Some(s[1])) /\ UNCHANGED <<s, o>>
BackOp       == res' = (IF s = <<>> THEN None ELSE Some(s[Len(s)])) /\ UNCHANGED <<s, o>>
Set(i, x)    == /\ IF Within(i) THEN s' = [s EXCEPT ![i + 1] = x] /\ res' = None
                   ELSE s' = s /\ res' = Some(x)
                /\ UNCHANGED o
SetUn(i, x)  == i < Len(s) /\ s' = [s EXCEPT ![i + 1] = x] /\ res' = Unit /\ UNCHANGED o
Swap(i, j)   == i < Len(s) /\ j < Len(s) /\ s' = SwapAt0(s, i, j) /\ res' = Unit /\ UNCHANGED o
Retain(m, r) == s' = SelectSeq(s, LAMBDA x : Key(x) % m = r) /\ res' = Unit /\ UNCHANGED o
Dedup        == s' = DedupBy(s, LAMBDA x : x) /\ res' = Unit /\ UNCHANGED o
Contains(x)  == res' = Bool(x \in Range(s)) /\ UNCHANGED <<s, o>>
Fill(x)      == s' = [i \in 1..Len(s) |-> x] /\ res' = Unit /\ UNCHANGED o
FillWith(x)  == s' = [i \in 1..Len(s) |-> x + i - 1] /\ res' = Unit /\ UNCHANGED o
AppendO      == s' = s \o o /\ o' = <<>> /\ res' = Unit
Xchg         == s' = o /\ o' = s /\ res' = Unit
Clear        == s' = <<>> /\ res' = Unit /\ UNCHANGED o
Reserve(n, c) == c >= Len(s) + n /\ res' = R("cap", <<c>>) /\ UNCHANGED <<s, o>>
Capacity(c)  == c >= Len(s) /\ res' = R("cap", <<c>>) /\ UNCHANGED <<s, o>>
LenOp        == res' = Int1(Len(s)) /\ UNCHANGED <<s, o>>
IsEmpty      == res' = Bool(s = <<>>) /\ UNCHANGED <<s, o>>
Read         == res' = SeqR(s) /\ UNCHANGED <<s, o>>

Do(e) ==
  CASE e.op = "new"      -> New(e.a[2], e.a[3], e.v[1])
    [] e.op = "pushb"    -> PushB(e.a[1])
    [] e.op = "pushf"    -> PushF(e.a[1])
    [] e.op = "popb"     -> PopB
    [] e.op = "popf"     -> PopF
    [] e.op = "rot"      -> Rot(e.a[1])
    [] e.op = "pushn"    -> PushN(e.a[1], e.a[2], e.a[3])
    [] e.op = "popn"     -> PopN(e.a[1])
    [] e.op = "get"      -> Get(e.a[1])
    [] e.op = "getun"    -> GetUn(e.a[1])
    [] e.op = "set"      -> Set(e.a[1], e.a[2])
    [] e.op = "setun"    -> SetUn(e.a[1], e.a[2])
    [] e.op = "front"    -> FrontOp
    [] e.op = "back"     -> BackOp
    [] e.op = "swap"     -> Swap(e.a[1], e.a[2])
    [] e.op = "retain"   -> Retain(e.a[1], e.a[2])
    [] e.op = "dedup"    -> Dedup
    [] e.op = "contains" -> Contains(e.a[1])
    [] e.op = "fill"     -> Fill(e.a[1])
    [] e.op = "fillwith" -> FillWith(e.a[1])
    [] e.op = "append"   -> AppendO
    [] e.op = "xchg"     -> Xchg
    [] e.op = "clear"    -> Clear
    [] e.op = "reserve"  -> Reserve(e.a[1], e.v[1])
    [] e.op = "capacity" -> Capacity(e.v[1])
    [] e.op = "len"      -> LenOp
    [] e.op = "isempty"  -> IsEmpty
    [] e.op = "asslice"  -> Read
    [] e.op = "iter"     -> Read
Obs == <<s, o>>
=============================================================================
