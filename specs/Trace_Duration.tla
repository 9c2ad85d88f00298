--------------------------- MODULE Trace_Duration ---------------------------
EXTENDS Duration, TraceBase
VARIABLE l
TraceInit == Init /\ l = 1
TraceNext == /\ l <= TLen
             /\ Alive(l)
             /\ Do(Log[l])
             /\ Agree(l, res', ObsOf(d'))
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<dvars, l>>
=============================================================================
