----------------------------- MODULE Trace_Str -----------------------------
EXTENDS Str, TraceBase
VARIABLE l
TraceInit == Init /\ l = 1
TraceNext == /\ l <= TLen
             /\ NoPanic(l)
             /\ Do(Log[l])
             /\ Agree(l, res', <<s'>>)
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<svars, l>>
=============================================================================
