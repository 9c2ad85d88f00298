---------------------------- MODULE Trace_Float ----------------------------
EXTENDS Float, TraceBase
VARIABLE l
TraceInit == Init /\ l = 1
TraceNext == /\ l <= TLen
             /\ NoPanic(l)
             /\ LET e == Log[l] IN
                /\ Do(e)
                /\ IF e.s = ObsOf(x') /\ (IF e.k = "flt" THEN (lax' \/ Same(VNum(e.v, 1), res')) ELSE e.k = "unit") THEN TRUE
                   ELSE PrintT(<<"MISMATCH", l, "type", ty, "register", x, "expected", res', x'>>) /\ FALSE
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<gvars, l>>
=============================================================================
