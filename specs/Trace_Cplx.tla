----------------------------- MODULE Trace_Cplx -----------------------------
EXTENDS Cplx, TraceBase
VARIABLE l
TraceInit == Init /\ l = 1
TraceNext == /\ l <= TLen
             /\ NoPanic(l)
             /\ IF ENABLED Do(Log[l]) THEN Do(Log[l]) ELSE PrintT(<<"MISMATCH", l, "type", ty, "register", z, "no such result">>) /\ FALSE
             /\ IF (Log[l].k = "cplx") = (Log[l].op \in Plain \cup {"clone", "asref"}) /\ CSame(CNum(Log[l].s[1], 1), z') THEN TRUE ELSE PrintT(<<"MISMATCH", l, "register", z'>>) /\ FALSE
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<cvars, l>>
=============================================================================
