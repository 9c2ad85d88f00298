---------------------------- MODULE Trace_Future ---------------------------
EXTENDS Future, TraceBase
VARIABLE l
TraceInit == Init /\ l = 1
Step(e) == IF e.op = "ev" THEN Event(e.v) ELSE Do(e)
TraceNext == /\ l <= TLen
             /\ NoPanic(l)
             /\ IF ENABLED Step(Log[l]) THEN Step(Log[l])
                ELSE PrintT(<<"MISMATCH", l, "not possible when computations are", st, "and callers await", aw>>) /\ FALSE
             /\ Once'
             /\ IF Log[l].op = "ev" THEN TRUE
                ELSE IF Log[l].op \in {"storm", "calm", "crowd", "plain"} THEN AgreeR(l, res')
                ELSE Agree(l, res', View0')
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<fvars, l>>
=============================================================================
