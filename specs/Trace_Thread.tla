---------------------------- MODULE Trace_Thread ---------------------------
EXTENDS Thread, TraceBase
VARIABLE l
TraceInit == Init /\ l = 1
Step(e) == IF e.op = "ev" THEN Event(e.v) ELSE Do(e, e.v = <<1>>)
TraceNext == /\ l <= TLen
             /\ NoPanic(l)
             /\ IF ENABLED Step(Log[l]) THEN Step(Log[l])
                ELSE PrintT(<<"MISMATCH", l, "not possible when functions are", st, "known to be over", known, "and callers join", jo>>) /\ FALSE
             /\ Once' /\ Truth'
             /\ LET e == Log[l] IN
                IF e.op = "ev" THEN TRUE
                ELSE IF e.op = "sleep" THEN (IF Slept(e.a, e.v) THEN TRUE ELSE PrintT(<<"MISMATCH", l, "slept", e.v>>) /\ FALSE)
                ELSE IF e.op \in {"storm", "calm", "crowd", "plain", "sleeplong"} THEN AgreeR(l, res')
                ELSE Agree(l, res', View0')
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<tvars, l>>
=============================================================================
