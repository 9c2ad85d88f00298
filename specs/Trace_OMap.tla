----------------------------- MODULE Trace_OMap -----------------------------
EXTENDS OMap, TraceBase
VARIABLE l
TraceInit == Init /\ l = 1
TraceNext == /\ l <= TLen
             /\ NoPanic(l)
             /\ LET e == Log[l] IN
                /\ Do(e)
                /\ AgreeR(l, res')
                /\ IF SeesIn(m', e.s) THEN TRUE ELSE PrintT(<<"MISMATCH", l, "the entries should be", m'>>) /\ FALSE
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<mvars, l>>
=============================================================================
