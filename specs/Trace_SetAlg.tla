---------------------------- MODULE Trace_SetAlg ----------------------------
EXTENDS SetAlg, TraceBase
VARIABLE l
TraceInit == Init /\ l = 1
TraceNext == /\ l <= TLen
             /\ NoPanic(l)
             /\ LET e == Log[l] IN
                /\ Do(e)
                /\ AgreeR(l, res')
                /\ IF e.op = "new" THEN TRUE
                   ELSE IF SeesIn(s', e.s) THEN TRUE ELSE PrintT(<<"MISMATCH", l, "the sets should be", s'>>) /\ FALSE
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<svars, l>>
=============================================================================
