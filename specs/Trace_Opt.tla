---------------------------- MODULE Trace_Opt ----------------------------
EXTENDS Opt, TraceBase
VARIABLE l
TraceInit == Init /\ l = 1
TraceNext == /\ l <= TLen
             /\ Alive(l)
             /\ IF Log[l].k = "panic" /\ Log[l].s = <<>> THEN PrintT(<<"MISMATCH", l, "a panic nobody asked for">>) /\ FALSE ELSE TRUE
             /\ Do(Log[l])
             /\ LET e == Log[l] IN IF e.k = res'.k /\ e.v = res'.v /\ e.s = Obs' THEN TRUE
                                   ELSE PrintT(<<"MISMATCH", l, "expected", res', Obs'>>) /\ FALSE
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<ovars, l>>
=============================================================================
