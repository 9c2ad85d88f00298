---------------------------- MODULE Trace_Assert ----------------------------
EXTENDS Assert, TraceBase
VARIABLE l
TraceInit == Init /\ l = 1
Got(e) == R(e.k, e.v)
TraceNext == /\ l <= TLen
             /\ NoPanic(l)
             /\ IF ENABLED ADo(Log[l], Got(Log[l])) THEN ADo(Log[l], Got(Log[l]))
                ELSE PrintT(<<"MISMATCH", l, "not how this may end:", Log[l].k, Log[l].v>>) /\ FALSE
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<fvars, l>>
=============================================================================
