---------------------------- MODULE Trace_BTree ----------------------------
(* Replays a recorded history on the B-tree design at the degree of the code *)
(* (6): the design explains the same results, and the structural cases the   *)
(* history meets are counted (printed at the end).                           *)
EXTENDS SeqOps, TraceBase
VARIABLES root, seen, l
B == INSTANCE BTree WITH T <- 6
vars == <<root, seen, l>>
InsCases(r, x) == IF B!ValueIn(r, x) # <<>> THEN {"update"}
                  ELSE IF Len(r.k) < B!Cap THEN B!CasesIns(r, x) ELSE {"growRoot"}
DelCases(r, x) == B!CasesDel(r, x) \cup (IF Len(r.k) = 1 /\ ~B!Leaf(r) /\ Len(B!Del(r, x).k) = 0 THEN {"shrinkRoot"} ELSE {})
RECURSIVE LoadAll(_, _, _, _, _)
LoadAll(r, s, n, from, by) ==
  IF n = 0 THEN <<r, s>>
  ELSE LET x == from * 100 IN
       LoadAll(B!Insert(r, x, from), s \cup InsCases(r, x), n - 1, from + by, by)
RECURSIVE UnloadAll(_, _, _, _, _)
UnloadAll(r, s, n, from, by) ==
  IF n = 0 THEN <<r, s>>
  ELSE LET x == from * 100 IN
       UnloadAll(B!Delete(r, x), s \cup DelCases(r, x), n - 1, from + by, by)
Opt(q) == IF q = <<>> THEN None ELSE Some(q[1])
TraceInit == root = B!Nil /\ seen = {} /\ l = 1
Key0(x) == (x \div 100) * 100
TraceNext ==
  /\ l <= TLen
  /\ LET e == Log[l] IN
     CASE e.op = "ins" -> LET x == Key0(e.a[1]) IN
            root' = B!Insert(root, x, e.a[2]) /\ seen' = seen \cup InsCases(root, x) /\ AgreeR(l, Opt(B!ValueIn(root, x)))
       [] e.op = "rem" -> LET x == Key0(e.a[1]) IN
            root' = B!Delete(root, x) /\ seen' = seen \cup DelCases(root, x) /\ AgreeR(l, Opt(B!ValueIn(root, x)))
       [] e.op = "load" -> LET p == LoadAll(root, seen, e.a[1], e.a[2], e.a[3]) IN root' = p[1] /\ seen' = p[2]
       [] e.op = "unload" -> LET p == UnloadAll(root, seen, e.a[1], e.a[2], e.a[3]) IN root' = p[1] /\ seen' = p[2]
       [] e.op \in {"new", "clear"} -> root' = B!Nil /\ UNCHANGED seen
       [] OTHER -> UNCHANGED <<root, seen>>
  /\ l' = l + 1
  /\ IF l < TLen THEN TRUE ELSE PrintT(<<"NOTE", "tree cases met", seen'>>)
TraceSpec == TraceInit /\ [][TraceNext]_vars
Shape == B!WellFormed(root)
=============================================================================
