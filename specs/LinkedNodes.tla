---------------------------- MODULE LinkedNodes ----------------------------
(* The design behind LinkedList: heap nodes with next and prev links, a list *)
(* is a head, a tail and a count.  Checked to refine List: the abstract list *)
(* is what following next from head gives, and following prev from tail      *)
(* gives its reverse.                                                        *)
EXTENDS SeqOps, TLC, Json
CONSTANTS Elems, MaxLen, MaxO, Depth
VARIABLES val, nxt, prv, S, O, ref, res, last, hist, cnt
vars == <<val, nxt, prv, S, O, ref, res, last, hist, cnt>>
\* S, O: [hd, tl, n]; node 0 is nil
Empty == [hd |-> 0, tl |-> 0, n |-> 0]
RECURSIVE Walk(_, _, _)
Walk(link, p, fuel) == IF p = 0 \/ fuel = 0 THEN <<>> ELSE <<p>> \o Walk(link, link[p], fuel - 1)
Nodes(l) == Walk(nxt, l.hd, 20)
ValsOf(l) == [i \in 1..Len(Nodes(l)) |-> val[Nodes(l)[i]]]
PosIn(l) == IF \E i \in 1..Len(Nodes(l)) : Nodes(l)[i] = ref
            THEN CHOOSE i \in 1..Len(Nodes(l)) : Nodes(l)[i] = ref ELSE 0
AbsH == IF ref = 0 THEN <<0, 0>> ELSE IF PosIn(S) > 0 THEN <<1, PosIn(S)>>
        ELSE IF PosIn(O) > 0 THEN <<2, PosIn(O)>> ELSE <<0, 0>>
L == INSTANCE List WITH s <- ValsOf(S), o <- ValsOf(O), h <- AbsH, res <- res

NewNode(x, nx, pv, nxt2, prv2) ==
  val' = Append(val, x) /\ nxt' = Append(nxt2, nx) /\ prv' = Append(prv2, pv) /\ cnt' = cnt + 1
Link(f, p, q) == IF p = 0 THEN f ELSE [f EXCEPT ![p] = q]
Keep1 == UNCHANGED <<val, nxt, prv, S, O, ref, cnt>>
C(op, a) == [op |-> op, a |-> a]
Step(e) ==
  CASE e.op = "pushb" -> LET n == cnt + 1 IN
         /\ NewNode(e.a[1], 0, S.tl, Link(nxt, S.tl, n), prv)
         /\ S' = [hd |-> IF S.hd = 0 THEN n ELSE S.hd, tl |-> n, n |-> S.n + 1]
         /\ res' = Unit /\ UNCHANGED <<O, ref>>
    [] e.op = "pushf" -> LET n == cnt + 1 IN
         /\ NewNode(e.a[1], S.hd, 0, nxt, Link(prv, S.hd, n))
         /\ S' = [hd |-> n, tl |-> IF S.tl = 0 THEN n ELSE S.tl, n |-> S.n + 1]
         /\ res' = Unit /\ UNCHANGED <<O, ref>>
    [] e.op = "popb" -> IF S.tl = 0 THEN res' = None /\ Keep1
         ELSE LET p == prv[S.tl] IN
              /\ res' = Some(val[S.tl])
              /\ nxt' = Link(nxt, p, 0)
              /\ S' = [hd |-> IF p = 0 THEN 0 ELSE S.hd, tl |-> p, n |-> S.n - 1]
              /\ UNCHANGED <<val, prv, O, ref, cnt>>
    [] e.op = "popf" -> IF S.hd = 0 THEN res' = None /\ Keep1
         ELSE LET p == nxt[S.hd] IN
              /\ res' = Some(val[S.hd])
              /\ prv' = Link(prv, p, 0)
              /\ S' = [hd |-> p, tl |-> IF p = 0 THEN 0 ELSE S.tl, n |-> S.n - 1]
              /\ UNCHANGED <<val, nxt, O, ref, cnt>>
    [] e.op = "front" -> res' = (IF S.hd = 0 THEN None ELSE Some(val[S.hd])) /\ Keep1
    [] e.op = "back"  -> res' = (IF S.tl = 0 THEN None ELSE Some(val[S.tl])) /\ Keep1
    [] e.op = "setfront" -> res' = Bool(S.hd # 0) /\ val' = Link(val, S.hd, e.a[1]) /\ UNCHANGED <<nxt, prv, S, O, ref, cnt>>
    [] e.op = "setback"  -> res' = Bool(S.tl # 0) /\ val' = Link(val, S.tl, e.a[1]) /\ UNCHANGED <<nxt, prv, S, O, ref, cnt>>
    [] e.op = "holdfront" -> ref' = S.hd /\ res' = (IF S.hd = 0 THEN None ELSE Some(val[S.hd])) /\ UNCHANGED <<val, nxt, prv, S, O, cnt>>
    [] e.op = "holdback"  -> ref' = S.tl /\ res' = (IF S.tl = 0 THEN None ELSE Some(val[S.tl])) /\ UNCHANGED <<val, nxt, prv, S, O, cnt>>
    [] e.op = "write" -> val' = Link(val, ref, e.a[1]) /\ res' = Unit /\ UNCHANGED <<nxt, prv, S, O, ref, cnt>>
    [] e.op = "append" -> /\ res' = Unit /\ UNCHANGED <<val, ref, cnt>>
         /\ IF O.hd = 0 THEN UNCHANGED <<nxt, prv, S, O>>
            ELSE IF S.hd = 0 THEN S' = O /\ O' = Empty /\ UNCHANGED <<nxt, prv>>
            ELSE /\ nxt' = [nxt EXCEPT ![S.tl] = O.hd] /\ prv' = [prv EXCEPT ![O.hd] = S.tl]
                 /\ S' = [hd |-> S.hd, tl |-> O.tl, n |-> S.n + O.n] /\ O' = Empty
    [] e.op = "xchg" -> S' = O /\ O' = S /\ res' = Unit /\ UNCHANGED <<val, nxt, prv, ref, cnt>>
    [] e.op = "clear" -> S' = Empty /\ res' = Unit /\ UNCHANGED <<val, nxt, prv, O, ref, cnt>>
    [] e.op = "len" -> res' = Int1(S.n) /\ Keep1
    [] e.op = "isempty" -> res' = Bool(S.n = 0) /\ Keep1
    [] e.op = "iter" -> res' = SeqR(ValsOf(S)) /\ Keep1

Calls == {C(op, <<x>>) : op \in {"pushb", "pushf", "setfront", "setback", "write"}, x \in Elems}
  \cup {C(op, <<>>) : op \in {"popb", "popf", "front", "back", "holdfront", "holdback", "append", "xchg", "clear", "len", "isempty", "iter"}}
Init == val = <<>> /\ nxt = <<>> /\ prv = <<>> /\ S = Empty /\ O = Empty /\ ref = 0 /\ res = Unit /\ cnt = 0
        /\ hist = <<C("new", <<0>>)>> /\ last = C("new", <<0>>)
Next == \E e \in Calls : Step(e) /\ hist' = Append(hist, e) /\ last' = e
Spec == Init /\ [][Next]_vars
Bound == S.n <= MaxLen /\ O.n <= MaxO /\ Len(hist) <= Depth
View == <<ValsOf(S), ValsOf(O), AbsH, ref = 0>>
Emit == Bound' => PrintT("SCRIPT " \o ToJson(hist'))
BackwardOK == \A l \in {S, O} : /\ Walk(prv, l.tl, 20) = Rev(Nodes(l))
                                /\ l.n = Len(Nodes(l))
                                /\ (l.hd = 0) = (l.tl = 0)
Refines == [][L!Do(last')]_vars
=============================================================================
