---------------------------- MODULE Trace_Mutex ----------------------------
EXTENDS Mutex, TraceBase
VARIABLE l
TraceInit == Init /\ l = 1
Step(e) == IF e.op = "ev" THEN Event(e.v) ELSE Do(e, e.s[1])
Shown == View0'
TraceNext == /\ l <= TLen
             /\ NoPanic(l)
             /\ IF ENABLED Step(Log[l]) THEN Step(Log[l])
                ELSE PrintT(<<"MISMATCH", l, "not possible when callers are", pc, "value", val>>) /\ FALSE
             /\ AtMostOne'
             /\ IF Log[l].op = "ev" THEN TRUE
                ELSE IF Log[l].op \in {"storm", "calm"} THEN AgreeR(l, res')
                ELSE Agree(l, res', Shown)
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<mvars, l>>
=============================================================================
