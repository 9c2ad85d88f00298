--------------------------- MODULE Trace_FixedInt ---------------------------
EXTENDS FixedInt, TraceBase
VARIABLE l
TraceInit == Init /\ l = 1
\* Recorded deviation I128REM (known finding): a remainder by a negative
\* divisor comes out with the opposite sign.
Flipped(e) == ty = 10 /\ e.op \in {"rem", "remassign"} /\ IsNeg(Num(e.a, 1))
FlippedRem(e, r) ==
  /\ r # Zero
  /\ IF e.op = "rem" THEN e.k = "val" /\ e.v = Log12(r) /\ e.s = ObsOf(x)
                     ELSE e.k = "unit" /\ e.s = ObsOf(r)
Deviate(e, r) == x' = (IF e.op = "rem" THEN x ELSE r) /\ UNCHANGED <<ty, res, lax>>
Note(e) == PrintT(<<"MISMATCH", l, "no behaviour; type and register", ty, x>>) /\ FALSE
Meet(e) == /\ Do(e)
           /\ IF (e.k = "panic" \/ e.s = ObsOf(x')) /\ (IF lax' THEN e.k = "val" ELSE e.k = res'.k /\ e.v = res'.v) THEN TRUE
              ELSE PrintT(<<"MISMATCH", l, "expected", res', "register", x'>>) /\ FALSE
TraceNext ==
  /\ l <= TLen
  /\ Alive(l)
  /\ LET e == Log[l] IN
     IF e.k = "panic" /\ ~(ty >= 10 /\ e.op \in {"div", "rem", "divassign", "remassign"}) THEN Note(e)
     ELSE IF e.op \in {"row", "text"} THEN (IF ENABLED Do(e) THEN Meet(e) ELSE Note(e))
     ELSE IF Flipped(e) THEN
       LET r == NegI(RemI(x, Num(e.a, 1))) IN
       IF FlippedRem(e, r) THEN PrintT(<<"KNOWN", "I128REM", l>>) /\ Deviate(e, r) ELSE Meet(e)
     ELSE Meet(e)
  /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<fvars, l>>
=============================================================================
