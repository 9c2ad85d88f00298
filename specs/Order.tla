-------------------------------- MODULE Order --------------------------------
(* C26: three registers of an ordered type.  Comparison is judged against the  *)
(* mathematical order of the values, equality against their identity.          *)
(* A value in a log: a list of numbers (integers), an exact float, one small   *)
(* number (booleans, characters, bytes), the bytes of a string preceded by      *)
(* their number, or the first and the second part of a pair.                    *)
EXTENDS SeqOps, Dyadic
VARIABLES ty, r, res
nvars == <<ty, r, res>>
\* shapes: a number of parts, each i(nteger) f(loat) n(small) s(tring)
Shape(t) == CASE t \in 0..11 -> <<"i">> [] t \in {12, 13} -> <<"f">> [] t \in {14, 15, 16} -> <<"n">> [] t = 17 -> <<"s">>
              [] t = 18 -> <<"i", "s">> [] t = 19 -> <<"s", "f">> [] t = 20 -> <<"i", "n", "i">>
\* the two zeros are one number
FDec(a, off) == IF a[off + 1] = 9999 THEN <<a[off], <<1>>, 9999>>
                ELSE IF \A k \in 2..6 : a[off + k] = 0 THEN DZero ELSE DNum(a, off)
\* the parts of a value
RECURSIVE Parts(_, _, _)
Parts(a, off, sh) ==
  IF sh = <<>> THEN <<>>
  ELSE LET n == CASE sh[1] = "i" -> 12 [] sh[1] = "f" -> 7 [] sh[1] = "n" -> 1 [] sh[1] = "s" -> 1 + a[off]
           v == CASE sh[1] = "i" -> Num(a, off) [] sh[1] = "f" -> FDec(a, off) [] sh[1] = "n" -> a[off]
                  [] sh[1] = "s" -> SubSeq(a, off + 1, off + a[off])
       IN  <<v>> \o Parts(a, off + n, Tail(sh))
RECURSIVE CmpBytes(_, _, _)
CmpBytes(p, q, i) == IF i > Len(p) \/ i > Len(q) THEN (IF Len(p) = Len(q) THEN 0 ELSE IF Len(p) < Len(q) THEN -1 ELSE 1)
                     ELSE IF p[i] # q[i] THEN (IF p[i] < q[i] THEN -1 ELSE 1) ELSE CmpBytes(p, q, i + 1)
CmpPart(k, p, q) == CASE k = "i" -> CmpI(p, q) [] k = "f" -> CmpD(p, q) [] k = "s" -> CmpBytes(p, q, 1)
                      [] k = "n" -> (IF p < q THEN -1 ELSE IF p > q THEN 1 ELSE 0)
RECURSIVE CmpParts(_, _, _)
CmpParts(sh, p, q) == IF sh = <<>> THEN 0
  ELSE LET c == CmpPart(sh[1], p[1], q[1]) IN IF c # 0 THEN c ELSE CmpParts(Tail(sh), Tail(p), Tail(q))
Init == ty = 0 /\ r = <<<<>>, <<>>, <<>>>> /\ res = Unit
Do(e) ==
  LET a == e.a IN
  CASE e.op = "new" -> ty' = a[1] /\ res' = Unit /\ r' = <<<<>>, <<>>, <<>>>>
    [] e.op = "put" -> r' = [r EXCEPT ![a[1]] = Parts(a, 2, Shape(ty))] /\ res' = Unit /\ UNCHANGED ty
    \* a copy, and the value behind a reference
    [] e.op \in {"clone", "ref"} -> r' = [r EXCEPT ![a[2]] = r[a[1]]] /\ res' = Unit /\ UNCHANGED ty
    \* comparing twice has to give the same answer: the driver compares both as values and behind the interface
    [] e.op = "cmp" -> res' = Int1(CmpParts(Shape(ty), r[a[1]], r[a[2]])) /\ UNCHANGED <<ty, r>>
    [] e.op = "eq"  -> res' = Bool(r[a[1]] = r[a[2]]) /\ UNCHANGED <<ty, r>>
=============================================================================
