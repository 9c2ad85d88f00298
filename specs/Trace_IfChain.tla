--------------------------- MODULE Trace_IfChain ---------------------------
EXTENDS IfChain, TraceBase
VARIABLE l
TraceInit == Init /\ l = 1
TraceNext == /\ l <= TLen
             /\ NoPanic(l)
             /\ IF ENABLED Do(Log[l], Log[l].s[1]) THEN Do(Log[l], Log[l].s[1])
                ELSE PrintT(<<"MISMATCH", l, "evaluated", Log[l].s[1], "conditions so far", conds>>) /\ FALSE
             /\ AgreeR(l, res')
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<cvars, l>>
=============================================================================
