---------------------------- MODULE Trace_Format ----------------------------
EXTENDS Format, TraceBase
VARIABLE l
TraceInit == Init /\ l = 1
Got(e) == R(e.k, e.v)
TraceNext == /\ l <= TLen
             /\ Alive(l)
             /\ IF ENABLED Do(Log[l], Got(Log[l])) THEN Do(Log[l], Got(Log[l]))
                ELSE PrintT(<<"MISMATCH", l, "expected one of", IF Log[l].op \in {"display", "text"} THEN Displays(Log[l].a) ELSE IF Log[l].op = "debug" THEN Debugs(Log[l].a) ELSE Texts(Log[l].a)>>) /\ FALSE
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<fvars, l>>
=============================================================================
