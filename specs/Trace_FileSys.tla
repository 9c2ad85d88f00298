--------------------------- MODULE Trace_FileSys ---------------------------
EXTENDS FileSys, TraceBase
VARIABLE l
TraceInit == Init /\ l = 1
Got(e) == R(e.k, e.v)
Seen(e) == {e.s[i] : i \in 1..Len(e.s)}
\* permission bits of the entry the call may have created: the one at a place
\* that was not there before
NewBits(e) == LET news == {s \in Seen(e) : SubSeq(s, 2, s[1] + 1) \notin DOMAIN fs /\ s[s[1] + 2] # LINK}
              IN IF Cardinality(news) = 1 THEN (CHOOSE s \in news : TRUE)[(CHOOSE s \in news : TRUE)[1] + 3] ELSE 493
Step(e) == Do(e, NewBits(e), Got(e)) /\ (e.op = "readdir" => res' = Got(e) \/ res' = Err)
Fits(e) == res' = Got(e) /\ Obs(fs') = Seen(e) /\ Cardinality(Seen(e)) = Len(e.s)
\* a call with two allowed outcomes: keep the one observed
TraceNext == /\ l <= TLen
             /\ NoPanic(l)
             /\ LET e == Log[l] IN
                IF ENABLED (Step(e) /\ Fits(e)) THEN Step(e) /\ Fits(e)
                ELSE PrintT(<<"MISMATCH", l, "before the call", fs>>) /\ FALSE
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<fvars, l>>
=============================================================================
