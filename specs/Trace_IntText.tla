--------------------------- MODULE Trace_IntText ---------------------------
EXTENDS IntText, TraceBase
VARIABLE l
TraceInit == Init /\ l = 1
TraceNext == /\ l <= TLen
             /\ NoPanic(l)
             /\ IF ENABLED Do(Log[l]) THEN Do(Log[l]) ELSE PrintT(<<"MISMATCH", l, "not the value's text">>) /\ FALSE
             /\ AgreeR(l, res')
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<tvars, l>>
=============================================================================
