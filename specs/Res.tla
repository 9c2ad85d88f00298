-------------------------------- MODULE Res --------------------------------
(* C13: two results, <<0, x>> (success) or <<1, n>> (error number n).         *)
(* Combinators leave their result in slot k.  calls as in Opt; errors passed  *)
(* to a function are listed by number.                                        *)
EXTENDS SeqOps, TextOps
VARIABLES s, ty, res, calls
rvars == <<s, ty, res, calls>>
Init == s = <<<<1, 0>>, <<1, 0>>>> /\ ty = 0 /\ res = Unit /\ calls = <<>>
IsOk(i) == s[i][1] = 0
X(i) == s[i][2]
Fn(f, x) == CASE f = 0 -> x + 7 [] f = 1 -> 5 [] f = 2 -> x % 3 [] OTHER -> x
Holds(m, r, x) == x % m = r
Ret(r, c) == res' = r /\ calls' = c /\ UNCHANGED <<s, ty>>
Put(k, q, c) == s' = [s EXCEPT ![k] = q] /\ res' = R("res", q) /\ calls' = c /\ UNCHANGED ty
Ok(x) == <<0, x>>
Err(n) == <<1, n>>
Shown(x) == CASE ty = 2 -> (IF x = 0 THEN <<>> ELSE PadNat(x, 8)) [] OTHER -> Dec(x)
OkText == <<79, 107, 40>>
ErrText(n) == <<101, 114, 114>> \o Dec(n)
Within(msg, t) == \E i \in 0..(Len(t) - Len(msg)) : SubSeq(t, i + 1, i + Len(msg)) = msg
PanicWith(msg, v) == Within(msg, v) /\ Ret(R("panic", v), <<>>)
Val(x) == Int1(x)
Do(e) ==
  LET a == e.a i == e.a[1] IN
  CASE e.op = "new"    -> s' = <<<<1, 0>>, <<1, 0>>>> /\ ty' = a[1] /\ res' = Unit /\ calls' = <<>>
    [] e.op = "ok"     -> Put(i, Ok(a[2]), <<>>)
    [] e.op = "err"    -> Put(i, Err(a[2]), <<>>)
    [] e.op = "isok"   -> Ret(Bool(IsOk(i)), <<>>)
    [] e.op = "iserr"  -> Ret(Bool(~IsOk(i)), <<>>)
    [] e.op = "isokand" -> IF IsOk(i) THEN Ret(Bool(Holds(a[2], a[3], X(i))), <<X(i)>>) ELSE Ret(Bool(FALSE), <<>>)
    [] e.op = "iserrand" -> IF IsOk(i) THEN Ret(Bool(FALSE), <<>>) ELSE Ret(Bool(Holds(a[2], a[3], X(i))), <<X(i)>>)
    [] e.op = "toopt"  -> Ret(R("opt", IF IsOk(i) THEN <<X(i)>> ELSE <<>>), <<>>)
    [] e.op = "toerr"  -> Ret(R("opt", IF IsOk(i) THEN <<>> ELSE <<X(i)>>), <<>>)
    [] e.op = "map"    -> IF IsOk(i) THEN Put(a[2], Ok(Fn(a[3], X(i))), <<X(i)>>) ELSE Put(a[2], s[i], <<>>)
    [] e.op = "mapor"  -> IF IsOk(i) THEN Ret(Val(Fn(a[3], X(i))), <<X(i)>>) ELSE Ret(Val(a[2]), <<>>)
    [] e.op = "maporelse" -> IF IsOk(i) THEN Ret(Val(Fn(a[3], X(i))), <<X(i)>>) ELSE Ret(Val(a[2]), <<-1>>)
    [] e.op = "maperr" -> IF IsOk(i) THEN Put(a[2], s[i], <<>>) ELSE Put(a[2], Err(Fn(a[3], X(i))), <<X(i)>>)
    [] e.op = "expect" -> IF IsOk(i) THEN Ret(Val(X(i)), <<>>) ELSE PanicWith(Tail(a), e.v)
    [] e.op = "unwrap" -> IF IsOk(i) THEN Ret(Val(X(i)), <<>>) ELSE PanicWith(<<>>, e.v)
    [] e.op = "expecterr" -> IF IsOk(i) THEN PanicWith(Tail(a), e.v) ELSE Ret(Val(X(i)), <<>>)
    [] e.op = "unwraperr" -> IF IsOk(i) THEN PanicWith(<<>>, e.v) ELSE Ret(Val(X(i)), <<>>)
    [] e.op = "and"    -> Put(a[3], IF IsOk(i) THEN s[a[2]] ELSE s[i], <<>>)
    \* the function answers success with its image, or (9) error 6
    [] e.op = "andthen" -> IF IsOk(i) THEN Put(a[2], IF a[3] = 9 THEN Err(6) ELSE Ok(Fn(a[3], X(i))), <<X(i)>>) ELSE Put(a[2], s[i], <<>>)
    [] e.op = "or"     -> Put(a[3], IF IsOk(i) THEN s[i] ELSE s[a[2]], <<>>)
    [] e.op = "orelse" -> IF IsOk(i) THEN Put(a[2], s[i], <<>>) ELSE Put(a[2], IF a[3] = 9 THEN Err(6) ELSE Ok(Fn(a[3], X(i))), <<X(i)>>)
    [] e.op = "unwrapor" -> Ret(Val(IF IsOk(i) THEN X(i) ELSE a[2]), <<>>)
    [] e.op = "unwraporelse" -> IF IsOk(i) THEN Ret(Val(X(i)), <<>>) ELSE Ret(Val(a[2]), <<-1>>)
    [] e.op = "display" -> Ret(SeqR(IF IsOk(i) THEN OkText \o Shown(X(i)) \o <<41>> ELSE ErrText(X(i))), <<>>)
    [] e.op \in {"clone", "ref"} -> Put(a[2], s[i], <<>>)
    [] e.op = "eq"     -> Ret(Bool(s[i] = s[a[2]]), <<>>)
Obs == <<s[1], s[2], calls>>
=============================================================================
