------------------------------ MODULE MC_BTree ------------------------------
(* All B-trees reachable with NKeys keys: refinement of OMap and the tree's   *)
(* shape invariants.  Histories for the real code come from MC_BTree6.       *)
EXTENDS SeqOps, TLC
CONSTANTS T, NKeys, Vals
VARIABLES root, res, last
B == INSTANCE BTree WITH T <- T
AbsM == [k \in {B!Content(root)[i][1] : i \in 1..Len(B!Content(root))} |->
           <<k, B!Content(root)[CHOOSE i \in 1..Len(B!Content(root)) : B!Content(root)[i][1] = k][2]>>]
O == INSTANCE OMap WITH m <- AbsM, kind <- 0, ty <- 1, res <- res
vars == <<root, res, last>>
C(op, a) == [op |-> op, a |-> a, v |-> <<>>]
Calls == {C("ins", <<k * 100, v>>) : k \in 1..NKeys, v \in Vals} \cup {C("rem", <<k * 100>>) : k \in 1..NKeys}
         \cup {C("get", <<k * 100>>) : k \in 1..NKeys}
Init == root = B!Nil /\ res = Unit /\ last = C("new", <<0, 1, 0, 0>>)
Opt(q) == IF q = <<>> THEN None ELSE Some(q[1])
Next == \E e \in Calls :
  /\ last' = e
  /\ res' = Opt(B!ValueIn(root, e.a[1]))
  /\ root' = CASE e.op = "ins" -> B!Insert(root, e.a[1], e.a[2]) [] e.op = "rem" -> B!Delete(root, e.a[1]) [] OTHER -> root
Spec == Init /\ [][Next]_vars
View == root
Shape == B!WellFormed(root)
Enumerated == O!InOrder = B!Content(root)
Refines == [][O!Do(last')]_vars
=============================================================================
