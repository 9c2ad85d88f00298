---------------------------- MODULE Trace_Trans ----------------------------
EXTENDS Trans, TraceBase
VARIABLE l
TraceInit == ty = 0 /\ x = VZero(0) /\ res = Just(VZero(0)) /\ l = 1
TraceNext == /\ l <= TLen
             /\ NoPanic(l)
             /\ LET e == Log[l] IN
                /\ Do(e)
                /\ IF (IF e.op \in {"new", "set"} THEN TRUE ELSE Accept(VNum(e.v, 1), res')) /\ e.s[1] = VLog(x') THEN TRUE
                   ELSE PrintT(<<"MISMATCH", l, "type", ty, "register", x, "got", e.v, "expected", res'>>) /\ FALSE
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<tvars, l>>
=============================================================================
