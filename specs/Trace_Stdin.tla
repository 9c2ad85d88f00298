---------------------------- MODULE Trace_Stdin ----------------------------
EXTENDS Stdin, TraceBase
VARIABLE l
TraceInit == Init /\ l = 1
TraceNext == /\ l <= TLen
             /\ NoPanic(l)
             /\ LET e == Log[l] IN
                /\ IF Intact(e.s) THEN TRUE ELSE PrintT(<<"MISMATCH", l, "a buffer lost what was in it">>) /\ FALSE
                /\ IF ENABLED Do(e, e.s) THEN Do(e, e.s)
                   ELSE PrintT(<<"MISMATCH", l, "unread", rest, "ended", eof, "reading", wait, "got", last>>) /\ FALSE
                /\ AgreeR(l, res')
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<svars, l>>
=============================================================================
