----------------------------- MODULE Trace_Iter -----------------------------
EXTENDS Iter, TraceBase
VARIABLE l
TraceInit == Init /\ l = 1
TraceNext == /\ l <= TLen
             /\ NoPanic(l)
             /\ LET e == Log[l] IN
                /\ IF ENABLED Do(e, e.s[2]) THEN Do(e, e.s[2])
                   ELSE PrintT(<<"MISMATCH", l, "expected from", it, "function given", e.s[2]>>) /\ FALSE
                /\ AgreeR(l, res')
                /\ IF IF kind' \in 3..6 THEN SameBag(e.s[1], cont') ELSE e.s[1] = cont' THEN TRUE
                   ELSE PrintT(<<"MISMATCH", l, "the container should hold", cont'>>) /\ FALSE
                /\ IF e.s[3] = out' THEN TRUE ELSE PrintT(<<"MISMATCH", l, "the collected vector should hold", out'>>) /\ FALSE
                /\ UsesFn(e) \/ e.s[2] = <<>>
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<ivars, l>>
=============================================================================
