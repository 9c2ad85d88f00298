-------------------------------- MODULE List --------------------------------
(* C04: a linked list is an ideal list with both ends.  h is the reference   *)
(* kept from Front or Back: <<list, position>> while its element is in a     *)
(* list (1: s, 2: o), <<0, 0>> otherwise.                                    *)
EXTENDS SeqOps
VARIABLES s, o, h, res
lvars == <<s, o, h, res>>
NoRef == <<0, 0>>

Init == s = <<>> /\ o = <<>> /\ h = NoRef /\ res = Unit
New      == s' = <<>> /\ o' = <<>> /\ h' = NoRef /\ res' = Unit
PushB(x) == s' = Append(s, x) /\ res' = Unit /\ UNCHANGED <<o, h>>
PushF(x) == s' = <<x>> \o s /\ h' = (IF h[1] = 1 THEN <<1, h[2] + 1>> ELSE h) /\ res' = Unit /\ UNCHANGED o
PopB     == IF s = <<>> THEN res' = None /\ UNCHANGED <<s, o, h>>
            ELSE /\ s' = Front1(s) /\ res' = Some(s[Len(s)]) /\ UNCHANGED o
                 /\ h' = IF h = <<1, Len(s)>> THEN NoRef ELSE h
PopF     == IF s = <<>> THEN res' = None /\ UNCHANGED <<s, o, h>>
            ELSE /\ s' = Tail(s) /\ res' = Some(s[1]) /\ UNCHANGED o
                 /\ h' = IF h = <<1, 1>> THEN NoRef ELSE IF h[1] = 1 THEN <<1, h[2] - 1>> ELSE h
\* x, x, .., x + 1, x + 1, ..: n elements in runs of m
PushN(n, x, m) == s' = s \o [i \in 1..n |-> x + (i - 1) \div m] /\ res' = Unit /\ UNCHANGED <<o, h>>
PopN(n) == LET k == Min2(n, Len(s)) IN
           /\ s' = SubSeq(s, k + 1, Len(s)) /\ res' = SeqR(SubSeq(s, 1, k)) /\ UNCHANGED o
           /\ h' = IF h[1] # 1 THEN h ELSE IF h[2] <= k THEN NoRef ELSE <<1, h[2] - k>>
FrontV   == IF s = <<>> THEN None ELSE Some(s[1])
BackV    == IF s = <<>> THEN None ELSE Some(s[Len(s)])
FrontOp  == res' = FrontV /\ UNCHANGED <<s, o, h>>
BackOp   == res' = BackV /\ UNCHANGED <<s, o, h>>
SetFront(x) == /\ res' = Bool(s # <<>>) /\ UNCHANGED <<o, h>>
               /\ s' = IF s = <<>> THEN s ELSE [s EXCEPT ![1] = x]
SetBack(x)  == /\ res' = Bool(s # <<>>) /\ UNCHANGED <<o, h>>
               /\ s' = IF s = <<>> THEN s ELSE [s EXCEPT ![Len(s)] = x]
HoldFront == res' = FrontV /\ h' = (IF s = <<>> THEN NoRef ELSE <<1, 1>>) /\ UNCHANGED <<s, o>>
HoldBack  == res' = BackV /\ h' = (IF s = <<>> THEN NoRef ELSE <<1, Len(s)>>) /\ UNCHANGED <<s, o>>
\* exactly the referenced element changes, wherever it is by now
Write(x) == /\ s' = IF h[1] = 1 THEN [s EXCEPT ![h[2]] = x] ELSE s
            /\ o' = IF h[1] = 2 THEN [o EXCEPT ![h[2]] = x] ELSE o
            /\ res' = Unit /\ UNCHANGED h
AppendO  == /\ s' = s \o o /\ o' = <<>> /\ res' = Unit
            /\ h' = IF h[1] = 2 THEN <<1, Len(s) + h[2]>> ELSE h
Xchg     == s' = o /\ o' = s /\ res' = Unit /\ h' = IF h[1] = 0 THEN h ELSE <<3 - h[1], h[2]>>
Clear    == s' = <<>> /\ res' = Unit /\ UNCHANGED o /\ h' = IF h[1] = 1 THEN NoRef ELSE h
LenOp    == res' = Int1(Len(s)) /\ UNCHANGED <<s, o, h>>
IsEmpty  == res' = Bool(s = <<>>) /\ UNCHANGED <<s, o, h>>
Read     == res' = SeqR(s) /\ UNCHANGED <<s, o, h>>

Do(e) ==
  CASE e.op = "new"       -> New
    [] e.op = "pushb"     -> PushB(e.a[1])
    [] e.op = "pushf"     -> PushF(e.a[1])
    [] e.op = "popb"      -> PopB
    [] e.op = "popf"      -> PopF
    [] e.op = "pushn"     -> PushN(e.a[1], e.a[2], e.a[3])
    [] e.op = "popn"      -> PopN(e.a[1])
    [] e.op = "front"     -> FrontOp
    [] e.op = "back"      -> BackOp
    [] e.op = "setfront"  -> SetFront(e.a[1])
    [] e.op = "setback"   -> SetBack(e.a[1])
    [] e.op = "holdfront" -> HoldFront
    [] e.op = "holdback"  -> HoldBack
    [] e.op = "write"     -> Write(e.a[1])
    [] e.op = "append"    -> AppendO
    [] e.op = "xchg"      -> Xchg
    [] e.op = "clear"     -> Clear
    [] e.op = "len"       -> LenOp
    [] e.op = "isempty"   -> IsEmpty
    [] e.op = "iter"      -> Read
Obs == <<s, o, <<Len(s), Len(o)>>>>
=============================================================================
