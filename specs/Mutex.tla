------------------------------- MODULE Mutex -------------------------------
(* C18: one mutex and the value it protects, with any number of callers.       *)
EXTENDS SeqOps, TLC
CONSTANT N               \* callers 1..N
VARIABLES pc,            \* per caller: 0 idle, 1 waiting, 2 holding, 3 leaving, 4 trying
          busy,          \* per trying caller: was another caller active meanwhile?
          val, res,
          other          \* a second mutex of the same type, which only the test itself uses: <<1 if held, its value>>
mvars == <<pc, busy, val, res, other>>
Callers == 1..N
Holders == {c \in Callers : pc[c] = 2}
Waiters == {c \in Callers : pc[c] = 1}
Free == Holders = {}
Quiet == [c \in Callers |-> 0]
Init == pc = Quiet /\ busy = [c \in Callers |-> FALSE] /\ val = 0 /\ res = Unit /\ other = <<0, 0>>
\* ---------------------------------------------------------------- steps
Active(p, c) == \E d \in Callers \ {c} : p[d] # 0
Go(p) == pc' = p /\ busy' = [c \in Callers |-> IF p[c] = 4 THEN (pc[c] = 4 /\ busy[c]) \/ Active(p, c) ELSE FALSE]
To(c, x) == Go([pc EXCEPT ![c] = x])
LockCall(c) == pc[c] = 0 /\ To(c, 1) /\ UNCHANGED val
\* seen: the value the new holder finds
Acquire(c)  == pc[c] = 1 /\ Free /\ To(c, 2) /\ UNCHANGED val
Update(c, v) == pc[c] = 2 /\ val' = v /\ UNCHANGED <<pc, busy>>
Release(c)  == pc[c] = 2 /\ To(c, 3) /\ UNCHANGED val
Left(c)     == pc[c] = 3 /\ To(c, 0) /\ UNCHANGED val
TryCall(c)  == pc[c] = 0 /\ To(c, 4) /\ UNCHANGED val
TryOk(c)    == pc[c] = 4 /\ Free /\ To(c, 2) /\ UNCHANGED val
\* only when somebody else was about
TryFail(c)  == pc[c] = 4 /\ busy[c] /\ To(c, 0) /\ UNCHANGED val
AtMostOne == Cardinality(Holders) <= 1
\* ------------------------------------------- whole calls, run to quiescence
Set(c, x) == Go([pc EXCEPT ![c] = x])
\* a call its caller is in no position to make is left out
Able(e) == CASE e.op \in {"lock", "trylock"} -> pc[e.a[1]] = 0
             [] e.op \in {"unlock", "set"}   -> pc[e.a[1]] = 2
             [] e.op = "lock2" -> other[1] = 0
             [] e.op \in {"unlock2", "set2"} -> other[1] = 1
             [] OTHER -> TRUE
\* whatever happens to the one mutex, the other is as it was
Do2(e) ==
  LET a == e.a IN
  CASE ~Able(e) -> UNCHANGED other
    [] e.op = "new"      -> other' = <<0, a[2]>>
    [] e.op \in {"lock2", "trylock2"} -> other' = <<1, other[2]>>
    [] e.op = "unlock2"  -> other' = <<0, other[2]>>
    [] e.op = "set2"     -> other' = <<1, a[1]>>
    [] OTHER             -> UNCHANGED other
\* w: who has what afterwards, as observed: only decides who is next
Do(e, w) ==
  LET a == e.a c == a[1] IN
  Do2(e) /\
  CASE ~Able(e) -> UNCHANGED <<pc, busy, val>> /\ res' = R("skip", <<>>)
    [] e.op = "new"     -> pc' = Quiet /\ busy' = [d \in Callers |-> FALSE] /\ val' = a[2] /\ res' = Unit
    [] e.op = "lock"    -> Set(c, IF Free THEN 2 ELSE 1) /\ UNCHANGED val /\ res' = Unit
    [] e.op = "trylock" -> UNCHANGED val
                           /\ IF Free THEN Set(c, 2) /\ res' = R("ok", <<val>>) ELSE Set(c, 0) /\ res' = R("err", <<>>)
    [] e.op = "unlock"  -> UNCHANGED val /\ res' = Unit
                           /\ IF Waiters = {} THEN Set(c, 0)
                              ELSE \E d \in Waiters : w[d] = 2 /\ Go([pc EXCEPT ![c] = 0, ![d] = 2])
    [] e.op \in {"lock2", "unlock2", "set2"} -> UNCHANGED <<pc, busy, val>> /\ res' = (IF e.op = "lock2" THEN R("ok", <<other[2]>>) ELSE Unit)
    [] e.op = "trylock2" -> UNCHANGED <<pc, busy, val>> /\ res' = (IF other[1] = 0 THEN R("ok", <<other[2]>>) ELSE R("err", <<>>))
    [] e.op = "set"     -> val' = a[2] /\ UNCHANGED <<pc, busy>> /\ res' = Unit
    \* many callers at once, told event by event
    [] e.op = "storm"   -> pc' = Quiet /\ busy' = [d \in Callers |-> FALSE] /\ val' = 0 /\ res' = Unit
    [] e.op = "calm"    -> pc = Quiet /\ UNCHANGED <<pc, busy, val>> /\ res' = Unit
    [] OTHER            -> FALSE
\* one event of a storm: d = <<kind, caller, value>>
Event(d) ==
  LET c == d[2] IN
  /\ res' = Unit /\ UNCHANGED other
  /\ CASE d[1] = 1 -> LockCall(c)
       [] d[1] = 2 -> Acquire(c) /\ d[3] = val
       [] d[1] = 3 -> Update(c, d[3])
       [] d[1] = 4 -> Release(c)
       [] d[1] = 5 -> Left(c)
       [] d[1] = 6 -> TryCall(c)
       [] d[1] = 7 -> TryOk(c) /\ d[3] = val
       [] d[1] = 8 -> TryFail(c)
       [] d[1] = 9 -> pc[c] = 2 /\ d[3] = val /\ UNCHANGED <<pc, busy, val>>   \* the holder looks again
\* what a look from outside shows: who waits and holds, and what holders see
View0 == <<[c \in Callers |-> pc[c]], IF Free THEN <<>> ELSE <<val>>>>
=============================================================================
