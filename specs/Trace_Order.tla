---------------------------- MODULE Trace_Order ----------------------------
EXTENDS Order, TraceBase
VARIABLE l
TraceInit == Init /\ l = 1
TraceNext == /\ l <= TLen
             /\ NoPanic(l)
             /\ Do(Log[l])
             /\ AgreeR(l, res')
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<nvars, l>>
=============================================================================
