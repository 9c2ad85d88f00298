---------------------------- MODULE Trace_Traits ----------------------------
EXTENDS Traits, TraceBase
VARIABLE l
W(e) == [k |-> e.k, v |-> e.v]
TraceInit == Init /\ l = 1
TraceNext == /\ l <= TLen
             /\ NoPanic(l)
             /\ LET e == Log[l] IN
                IF ENABLED Do(e, W(e), e.s[1]) THEN Do(e, W(e), e.s[1])
                ELSE PrintT(<<"MISMATCH", l, "no such outcome from", kind, tc, tq, td, s, o>>) /\ FALSE
             /\ Agree(l, res', ObsOf(kind', s', o'))
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<tvars, l>>
=============================================================================
