----------------------------- MODULE MutexSteps ----------------------------
(* The fine-grained design: every interleaving of the callers' steps, with     *)
(* fairness: a waiting caller is served after the mutex is released.           *)
EXTENDS Mutex
CONSTANT Vals
Caller(c) == LockCall(c) \/ Acquire(c) \/ Release(c) \/ Left(c) \/ TryCall(c) \/ TryOk(c) \/ TryFail(c) \/ \E v \in Vals : Update(c, v)
\* a trying caller always gets an answer, whatever the others do
TryAnswers == \A c \in Callers : pc[c] = 4 => ENABLED (TryOk(c) \/ TryFail(c))
Next == \E c \in Callers : Caller(c) /\ UNCHANGED <<res, other>>
Fair == \A c \in Callers : /\ WF_mvars(Acquire(c) /\ UNCHANGED <<res, other>>) /\ WF_mvars(Release(c) /\ UNCHANGED <<res, other>>) /\ WF_mvars(Left(c) /\ UNCHANGED <<res, other>>)
                           /\ WF_mvars((TryOk(c) \/ TryFail(c)) /\ UNCHANGED <<res, other>>)
Spec == Init /\ [][Next]_mvars /\ Fair
\* only the holder changes the value
Guarded == [][val' # val => \E c \in Callers : pc[c] = 2 /\ pc'[c] = 2]_mvars
HandOver == (Waiters # {}) ~> (Holders # {})
\* with strong fairness of Acquire every waiter is served (sync.Mutex hands over
\* to a starving waiter); under weak fairness somebody is
StrongSpec == Init /\ [][Next]_mvars /\ Fair /\ \A c \in Callers : SF_mvars(Acquire(c) /\ UNCHANGED <<res, other>>)
Served == \A c \in Callers : (pc[c] = 1) ~> (pc[c] = 2)
=============================================================================
