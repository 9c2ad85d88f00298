---------------------------- MODULE Trace_List ----------------------------
EXTENDS List, TraceBase
VARIABLE l
TraceInit == Init /\ l = 1
TraceNext == /\ l <= TLen
             /\ NoPanic(l)
             /\ Do(Log[l])
             /\ Agree(l, res', Obs')
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<lvars, l>>
=============================================================================
