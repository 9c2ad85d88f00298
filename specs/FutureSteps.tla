---------------------------- MODULE FutureSteps ----------------------------
(* The fine-grained design: every interleaving of the computations' and the    *)
(* callers' steps.  Safety: each function is entered once, an await returns     *)
(* only what the function returned and only afterwards.  Liveness: what is      *)
(* started and allowed to end returns, and so does everybody awaiting it.       *)
EXTENDS Future
Q == UNCHANGED res
Sys(i) == Begin(i) \/ End(i)
Next == \/ \E i \in Futs : \E d \in {0} \cup {j \in Futs : st[j] # 0} : Start(i, i + 10, d) /\ Q
        \/ \E i \in Futs : (Sys(i) \/ (st[i] # 0 /\ Open(i))) /\ Q
        \/ \E a \in Callers, i \in Futs : Await(a, i) /\ Q
        \/ \E a \in Callers : Return(a) /\ Q
Spec == Init /\ [][Next]_fvars /\ \A i \in Futs : WF_fvars(Sys(i) /\ Q) /\ \A a \in Callers : WF_fvars(Return(a) /\ Q)
Final == [][\A i \in Futs : st[i] = 3 => st'[i] = 3 /\ val'[i] = val[i]]_fvars
Right == [][\A a \in Callers : aw[a] # 0 /\ aw'[a] = 0 => st[aw[a]] = 3 /\ got'[a] = val[aw[a]]]_fvars
RunsUnasked == \A i \in Futs : (st[i] = 1) ~> (st[i] # 1)
RECURSIVE Clear(_)
Clear(i) == i = 0 \/ (st[i] # 0 /\ open[i] /\ Clear(dep[i]))
Answered == \A a \in Callers, i \in Futs : (aw[a] = i /\ Clear(i)) ~> (aw[a] = 0)
=============================================================================
