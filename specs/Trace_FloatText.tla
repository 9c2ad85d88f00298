-------------------------- MODULE Trace_FloatText --------------------------
EXTENDS FloatText, TraceBase
VARIABLE l
TraceInit == Init /\ l = 1
TraceNext == /\ l <= TLen
             /\ NoPanic(l)
             /\ IF ENABLED Do(Log[l]) THEN Do(Log[l]) ELSE PrintT(<<"MISMATCH", l, "not the value's text">>) /\ FALSE
             /\ IF Agrees(Log[l], res') THEN TRUE ELSE PrintT(<<"MISMATCH", l, "expected", res'>>) /\ FALSE
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<xvars, l>>
=============================================================================
