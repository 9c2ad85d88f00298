----------------------------- MODULE TraceBase -----------------------------
(* Reading a recorded trace.  The file's path comes from the environment.    *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
TLen  == Len(Log)
\* A call that never returned, or that brought the process down, is not a
\* step of any specification here.
Alive(i) == IF Log[i].k \notin {"hang", "crash"} THEN TRUE
            ELSE PrintT(<<"MISMATCH", i, "the call did not return:", Log[i].k>>) /\ FALSE
\* For specifications in which no call may panic.
NoPanic(i) == IF Log[i].k \notin {"hang", "crash", "panic"} THEN TRUE
              ELSE PrintT(<<"MISMATCH", i, "the call did not return:", Log[i].k>>) /\ FALSE
\* Want: the specification's result and observation for line i; the line is
\* accepted iff they are what was recorded.
Agree(i, r, obs) ==
  LET e == Log[i] IN
  IF e.k = r.k /\ e.v = r.v /\ (e.k = "panic" \/ e.s = obs)
  THEN TRUE
  ELSE PrintT(<<"MISMATCH", i, "expected", r, obs>>) /\ FALSE
\* The result alone, where the observation is judged separately.
AgreeR(i, r) == LET e == Log[i] IN
  IF e.k = r.k /\ e.v = r.v THEN TRUE ELSE PrintT(<<"MISMATCH", i, "expected", r>>) /\ FALSE
Accepted ==
  IF TLCGet("stats").diameter - 1 = TLen
  THEN PrintT(<<"TRACE_ACCEPTED", TLen>>)
  ELSE PrintT(<<"TRACE_REJECTED", TLCGet("stats").diameter>>)
=============================================================================
