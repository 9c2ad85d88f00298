--------------------------- MODULE Trace_CloneEq ---------------------------
EXTENDS CloneEq, TraceBase
VARIABLE l
TraceInit == Init /\ l = 1
TraceNext == /\ l <= TLen
             /\ NoPanic(l)
             /\ Do(Log[l])
             /\ Agree(l, res', ObsOf(s'))
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<cvars, l>>
=============================================================================
