------------------------------- MODULE Future ------------------------------
(* C20: asynchronous computations and those who await them.                    *)
(* Work i goes through: 0 not started, 1 started, 2 running, 3 returned.        *)
EXTENDS SeqOps, TLC
CONSTANTS N, A           \* computations 1..N, awaiting callers 1..A
VARIABLES st, runs,      \* per computation: state, how often its function was entered
          val, open,     \* its value; may its function return?
          dep,           \* a computation its function itself awaits, or 0
          aw, got,       \* per awaiting caller: whom it awaits (0: nobody), what its last await returned (-1: nothing)
          res
fvars == <<st, runs, val, open, dep, aw, got, res>>
Futs == 1..N
Callers == 1..A
Init == /\ st = [i \in Futs |-> 0] /\ runs = st /\ val = st /\ open = [i \in Futs |-> FALSE] /\ dep = st
        /\ aw = [a \in Callers |-> 0] /\ got = [a \in Callers |-> -1] /\ res = Unit
\* ---------------------------------------------------------------- steps
Start(i, v, d) == st[i] = 0 /\ st' = [st EXCEPT ![i] = 1] /\ val' = [val EXCEPT ![i] = v] /\ dep' = [dep EXCEPT ![i] = d]
                  /\ UNCHANGED <<runs, open, aw, got>>
Begin(i)   == st[i] = 1 /\ st' = [st EXCEPT ![i] = 2] /\ runs' = [runs EXCEPT ![i] = @ + 1] /\ UNCHANGED <<val, open, dep, aw, got>>
Open(i)    == ~open[i] /\ open' = [open EXCEPT ![i] = TRUE] /\ UNCHANGED <<st, runs, val, dep, aw, got>>
MayEnd(i)  == st[i] = 2 /\ open[i] /\ (IF dep[i] = 0 THEN TRUE ELSE st[dep[i]] = 3)
End(i)     == MayEnd(i) /\ st' = [st EXCEPT ![i] = 3] /\ UNCHANGED <<runs, val, open, dep, aw, got>>
Await(a, i) == aw[a] = 0 /\ st[i] # 0 /\ aw' = [aw EXCEPT ![a] = i] /\ got' = [got EXCEPT ![a] = -1]
               /\ UNCHANGED <<st, runs, val, open, dep>>
Return(a)  == aw[a] # 0 /\ st[aw[a]] = 3 /\ aw' = [aw EXCEPT ![a] = 0] /\ got' = [got EXCEPT ![a] = val[aw[a]]]
              /\ UNCHANGED <<st, runs, val, open, dep>>
Once == \A i \in Futs : runs[i] = (IF st[i] >= 2 THEN 1 ELSE 0)
\* ------------------------------------------- whole calls, run to quiescence
RECURSIVE Ended(_, _, _)         \* what has returned once nothing more can
Ended(s, o, d) ==
  LET n == [i \in Futs |-> IF s[i] = 2 /\ o[i] /\ (IF d[i] = 0 THEN TRUE ELSE s[d[i]] = 3) THEN 3 ELSE s[i]] IN
  IF n = s THEN s ELSE Ended(n, o, d)
Settle(s, o, d, w, g) ==
  LET f == Ended([i \in Futs |-> IF s[i] = 1 THEN 2 ELSE s[i]], o, d) IN
  /\ st' = f /\ open' = o /\ dep' = d
  /\ runs' = [i \in Futs |-> runs[i] + (IF s[i] = 1 THEN 1 ELSE 0)]
  /\ aw'  = [a \in Callers |-> IF w[a] # 0 /\ f[w[a]] = 3 THEN 0 ELSE w[a]]
  /\ got' = [a \in Callers |-> IF w[a] # 0 /\ f[w[a]] = 3 THEN val'[w[a]] ELSE g[a]]
Reset == /\ st' = [i \in Futs |-> 0] /\ runs' = [i \in Futs |-> 0] /\ val' = [i \in Futs |-> 0] /\ open' = [i \in Futs |-> FALSE]
         /\ dep' = [i \in Futs |-> 0] /\ aw' = [a \in Callers |-> 0] /\ got' = [a \in Callers |-> -1]
Do(e) ==
  LET a == e.a IN
  CASE e.op = "new"     -> Reset /\ res' = Unit
    \* start computation i with value v; its function first awaits computation d (0: none);
    \* it must not return before it is opened
    [] e.op = "start"   -> st[a[1]] = 0 /\ (IF a[3] = 0 THEN TRUE ELSE st[a[3]] # 0) /\ val' = [val EXCEPT ![a[1]] = a[2]] /\ res' = Unit
                           /\ Settle([st EXCEPT ![a[1]] = 1], open, [dep EXCEPT ![a[1]] = a[3]], aw, got)
    [] e.op = "open"    -> ~open[a[1]] /\ UNCHANGED val /\ res' = Unit /\ Settle(st, [open EXCEPT ![a[1]] = TRUE], dep, aw, got)
    [] e.op = "await"   -> aw[a[1]] = 0 /\ st[a[2]] # 0 /\ UNCHANGED val /\ res' = Unit
                           /\ Settle(st, open, dep, [aw EXCEPT ![a[1]] = a[2]], [got EXCEPT ![a[1]] = -1])
    \* n computations at once, none of which returns before all are running: how many ran, how many results were right
    [] e.op = "crowd"   -> UNCHANGED <<st, runs, val, open, dep, aw, got>> /\ res' = R("crowd", <<a[1], a[1]>>)
    \* many callers without any ordering but the awaits: wrong results, unordered accesses
    [] e.op = "plain"   -> UNCHANGED <<st, runs, val, open, dep, aw, got>> /\ res' = R("plain", <<0, 0>>)
    [] e.op = "storm"   -> Reset /\ res' = Unit
    [] e.op = "calm"    -> (\A i \in Futs : st[i] \in {0, 3}) /\ (\A x \in Callers : aw[x] = 0)
                           /\ UNCHANGED <<st, runs, val, open, dep, aw, got>> /\ res' = Unit
    [] OTHER            -> FALSE
\* one event of a storm: d = <<kind, computation or caller, x>>
Event(d) ==
  LET i == d[2] x == d[3] IN
  /\ res' = Unit
  /\ CASE d[1] = 1 -> Start(i, x, 0)
       [] d[1] = 2 -> Begin(i)
       [] d[1] = 3 -> st[i] = 2 /\ st' = [st EXCEPT ![i] = 3] /\ UNCHANGED <<runs, val, open, dep, aw, got>>
       [] d[1] = 4 -> Await(i, x)
       [] d[1] = 5 -> Return(i) /\ got'[i] = x
View0 == <<runs, [a \in Callers |-> aw[a]], got, [i \in Futs |-> IF st[i] = 3 THEN 1 ELSE 0]>>
=============================================================================
