----------------------------- MODULE Trace_Heap -----------------------------
EXTENDS Heap, TraceBase
VARIABLE l
TraceInit == Init /\ l = 1
TraceNext == /\ l <= TLen
             /\ NoPanic(l)
             /\ IF ENABLED Do(Log[l]) THEN Do(Log[l]) ELSE PrintT(<<"MISMATCH", l, "not from the bag", s>>) /\ FALSE
             /\ Agree(l, res', Obs')
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<hvars, l>>
=============================================================================
