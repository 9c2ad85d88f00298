-------------------------------- MODULE Opt --------------------------------
(* C12: two optional values, <<>> (absent) or <<x>>.  Combinators consume     *)
(* their operands (which become absent) and leave their result in slot k; in- *)
(* place operations change their slot.  calls: what the given function was   *)
(* called with, in order (-1: called without argument).  A panic is a result. *)
EXTENDS SeqOps, TextOps
VARIABLES s, ty, res, calls,
          ptr,     \* the slot the last reference handed out refers to; -1: one whose value was taken away; 0: not known
          held,    \* the option handed out by the last take or replace, or a copy of one
          shared   \* held is a copy, and writing through a reference may reach it
ovars == <<s, ty, res, calls, ptr, held, shared>>
Slots == 1..2
Init == s = <<<<>>, <<>>>> /\ ty = 0 /\ res = Unit /\ calls = <<>> /\ ptr = 0 /\ held = <<>> /\ shared = FALSE
Has(i) == s[i] # <<>>
X(i) == s[i][1]
OptR(q) == R("opt", q)
Fn(f, x) == CASE f = 0 -> x + 7 [] f = 1 -> 5 [] f = 2 -> x % 3 [] OTHER -> x
Holds(m, r, x) == x % m = r
\* results
Ret(r, c) == res' = r /\ calls' = c /\ UNCHANGED <<s, ty>>
Set(i, q, r, c) == s' = [s EXCEPT ![i] = q] /\ res' = r /\ calls' = c /\ UNCHANGED ty
\* i and j are consumed, q goes to k
Move(i, j, k, q, c) == s' = [[s EXCEPT ![i] = <<>>, ![j] = <<>>] EXCEPT ![k] = q] /\ res' = OptR(q) /\ calls' = c /\ UNCHANGED ty
Shown(x) == CASE ty = 2 -> (IF x = 0 THEN <<>> ELSE PadNat(x, 8)) [] OTHER -> Dec(x)
SomeText == <<83, 111, 109, 101, 40>>
NoneText == <<78, 111, 110, 101>>
Val(x) == Int1(x)
\* panics carry msg somewhere in their text t
Holds2(msg, t) == \E i \in 0..(Len(t) - Len(msg)) : SubSeq(t, i + 1, i + Len(msg)) = msg
PanicWith(msg, v) == Holds2(msg, v) /\ Ret(R("panic", v), <<>>)
Inserts == {"insert", "getorinsert", "getorinsertwith"}
Readers == {"issome", "isnone", "issomeand", "expect", "unwrap", "unwrapor", "unwraporelse", "mapor", "maporelse", "and", "andthen", "display", "eq", "poke"}
\* a reference to a value that is present may refer to what the copy holds too: it is given up
Reaches(e) == shared /\ e.op \in {"getorinsert", "getorinsertwith"} /\ Has(e.a[1])
Refs(e) ==
  /\ ptr' = (CASE e.op \in Inserts -> e.a[1]
               [] e.op \in Readers -> ptr
               [] e.op = "take" -> (IF ptr = e.a[1] THEN -1 ELSE ptr)
               [] e.op = "clone" -> (IF ptr = e.a[2] THEN 0 ELSE ptr)
               [] OTHER -> 0)
  /\ held' = (CASE e.op = "new" -> <<>>
                [] e.op \in {"take", "replace", "copy"} -> s[e.a[1]]
                [] Reaches(e) -> <<>>
                [] OTHER -> held)
  /\ shared' = (CASE e.op = "copy" -> TRUE
                  [] e.op \in {"new", "take", "replace"} \/ Reaches(e) -> FALSE
                  [] OTHER -> shared)
Step(e) ==
  LET a == e.a i == e.a[1] IN
  CASE e.op = "new"    -> s' = <<<<>>, <<>>>> /\ ty' = a[1] /\ res' = Unit /\ calls' = <<>>
    [] e.op = "some"   -> Set(i, <<a[2]>>, Unit, <<>>)
    [] e.op \in {"none", "zero"} -> Set(i, <<>>, Unit, <<>>)
    [] e.op = "issome" -> Ret(Bool(Has(i)), <<>>)
    [] e.op = "isnone" -> Ret(Bool(~Has(i)), <<>>)
    [] e.op = "issomeand" -> IF Has(i) THEN Ret(Bool(Holds(a[2], a[3], X(i))), <<X(i)>>) ELSE Ret(Bool(FALSE), <<>>)
    [] e.op = "expect" -> IF Has(i) THEN Ret(Val(X(i)), <<>>) ELSE PanicWith(Tail(a), e.v)
    [] e.op = "unwrap" -> IF Has(i) THEN Ret(Val(X(i)), <<>>) ELSE PanicWith(<<>>, e.v)
    [] e.op = "unwrapor" -> Ret(Val(IF Has(i) THEN X(i) ELSE a[2]), <<>>)
    [] e.op = "unwraporelse" -> IF Has(i) THEN Ret(Val(X(i)), <<>>) ELSE Ret(Val(a[2]), <<-1>>)
    [] e.op = "map"    -> IF Has(i) THEN Move(i, i, a[2], <<Fn(a[3], X(i))>>, <<X(i)>>) ELSE Move(i, i, a[2], <<>>, <<>>)
    [] e.op = "mapor"  -> IF Has(i) THEN Ret(Val(Fn(a[3], X(i))), <<X(i)>>) ELSE Ret(Val(a[2]), <<>>)
    [] e.op = "maporelse" -> IF Has(i) THEN Ret(Val(Fn(a[3], X(i))), <<X(i)>>) ELSE Ret(Val(a[2]), <<-1>>)
    [] e.op = "and"    -> Ret(OptR(IF Has(i) THEN s[a[2]] ELSE <<>>), <<>>)
    \* the function answers present (its image) or absent
    [] e.op = "andthen" -> IF Has(i) THEN Ret(OptR(IF a[2] = 9 THEN <<>> ELSE <<Fn(a[2], X(i))>>), <<X(i)>>) ELSE Ret(None, <<>>)
    [] e.op = "filter" -> IF Has(i) THEN Move(i, i, a[2], IF Holds(a[3], a[4], X(i)) THEN s[i] ELSE <<>>, <<X(i)>>)
                          ELSE Move(i, i, a[2], <<>>, <<>>)
    [] e.op = "or"     -> Move(i, a[2], a[3], IF Has(i) THEN s[i] ELSE s[a[2]], <<>>)
    [] e.op = "orelse" -> Move(i, a[2], a[3], IF Has(i) THEN s[i] ELSE s[a[2]], IF Has(i) THEN <<>> ELSE <<-1>>)
    [] e.op = "xor"    -> Move(i, a[2], a[3], IF Has(i) /\ ~Has(a[2]) THEN s[i] ELSE IF Has(a[2]) /\ ~Has(i) THEN s[a[2]] ELSE <<>>, <<>>)
    \* the reference returned shows the value; writing a[3] through it changes the slot
    [] e.op = "insert" -> Set(i, <<a[3]>>, Val(a[2]), <<>>)
    [] e.op = "getorinsert" -> Set(i, <<a[3]>>, Val(IF Has(i) THEN X(i) ELSE a[2]), <<>>)
    [] e.op = "getorinsertwith" -> Set(i, <<a[3]>>, Val(IF Has(i) THEN X(i) ELSE a[2]), IF Has(i) THEN <<>> ELSE <<-1>>)
    [] e.op = "take"   -> Set(i, <<>>, OptR(s[i]), <<>>)
    [] e.op = "replace" -> Set(i, <<a[2]>>, OptR(s[i]), <<>>)
    [] e.op = "copy"   -> Ret(OptR(s[i]), <<>>)
    [] e.op = "display" -> Ret(SeqR(IF Has(i) THEN SomeText \o Shown(X(i)) \o <<41>> ELSE NoneText), <<>>)
    \* writing through the reference
    [] e.op = "poke"   -> ptr # 0 /\ (IF ptr < 0 THEN Ret(Unit, <<>>) ELSE Set(ptr, <<a[1]>>, Unit, <<>>))
    [] e.op = "clone"  -> Set(a[2], s[i], OptR(s[i]), <<>>)
    [] e.op = "eq"     -> Ret(Bool(s[i] = s[a[2]]), <<>>)
Do(e) == Refs(e) /\ Step(e)
Obs == <<s[1], s[2], calls, held>>
=============================================================================
