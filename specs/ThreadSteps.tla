---------------------------- MODULE ThreadSteps ----------------------------
(* The fine-grained design: every interleaving of functions, joins and queries.*)
EXTENDS Thread
Q == UNCHANGED res
Sys(i) == Begin(i) \/ (MayEnd(i) /\ Return(i))
Next == \/ \E i \in Works : \E d \in {0} \cup {j \in Works : st[j] # 0} : SpawnCall(i, i + 10, d) /\ Q
        \/ \E i \in Works : (Sys(i) \/ (st[i] # 0 /\ Open(i))) /\ Q
        \/ \E c \in Callers, i \in Works : (JoinCall(c, i) \/ Ask(c, i)) /\ Q
        \/ \E c \in Callers : (Joined(c) \/ Over(c) \/ NotOver(c)) /\ Q
Spec == Init /\ [][Next]_tvars /\ \A i \in Works : WF_tvars(Sys(i) /\ Q)
        /\ \A c \in Callers : WF_tvars(Joined(c) /\ Q) /\ WF_tvars((Over(c) \/ NotOver(c)) /\ Q)
\* an answered query stays answered yes
Stays == [][\A i \in Works : known[i] => known'[i]]_tvars
AfterEnd == [][\A c \in Callers : jo[c] # 0 /\ jo'[c] = 0 => st[jo[c]] = 3 /\ got'[c] = val[jo[c]]]_tvars
RECURSIVE Clear(_)
Clear(i) == i = 0 \/ (st[i] # 0 /\ open[i] /\ Clear(dep[i]))
Runs == \A i \in Works : (st[i] = 1) ~> (st[i] # 1)
JoinReturns == \A c \in Callers, i \in Works : (jo[c] = i /\ Clear(i)) ~> (jo[c] = 0)
\* queries never wait for anything
QueryAnswers == \A c \in Callers : asks[c][1] # 0 => (st[asks[c][1]] = 3 \/ ~asks[c][2])
=============================================================================
