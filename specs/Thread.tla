------------------------------- MODULE Thread ------------------------------
(* C19: spawned work, those who join it and those who ask whether it is over.  *)
(* Work i goes through: 0 not spawned, 1 spawned, 2 running, 3 returned.        *)
EXTENDS SeqOps, TLC
CONSTANTS N, A           \* spawned functions 1..N, callers 1..A
VARIABLES st, runs,      \* per function: state, how often it was entered
          val, open,     \* what it leaves in memory; may it return?
          dep,           \* a function it itself joins, or 0
          known,         \* has anybody learnt that it is over?
          jo, got,       \* per caller: whom it joins (0: nobody), what it found in memory after its last join (-1: none)
          asks,          \* per caller: whom it asks about (0: nobody), and whether that one was known to be over when it began to ask
          res
tvars == <<st, runs, val, open, dep, known, jo, got, asks, res>>
Works == 1..N
Callers == 1..A
Nobody == [c \in Callers |-> 0]
Init == /\ st = [i \in Works |-> 0] /\ runs = st /\ val = st /\ dep = st
        /\ open = [i \in Works |-> FALSE] /\ known = open
        /\ jo = Nobody /\ got = [c \in Callers |-> -1] /\ asks = [c \in Callers |-> <<0, FALSE>>] /\ res = Unit
\* ---------------------------------------------------------------- steps
SpawnCall(i, v, d) == st[i] = 0 /\ st' = [st EXCEPT ![i] = 1] /\ val' = [val EXCEPT ![i] = v] /\ dep' = [dep EXCEPT ![i] = d]
                      /\ UNCHANGED <<runs, open, known, jo, got, asks>>
Begin(i)    == st[i] = 1 /\ st' = [st EXCEPT ![i] = 2] /\ runs' = [runs EXCEPT ![i] = @ + 1] /\ UNCHANGED <<val, open, dep, known, jo, got, asks>>
Open(i)     == ~open[i] /\ open' = [open EXCEPT ![i] = TRUE] /\ UNCHANGED <<st, runs, val, dep, known, jo, got, asks>>
MayEnd(i)   == st[i] = 2 /\ open[i] /\ (IF dep[i] = 0 THEN TRUE ELSE st[dep[i]] = 3)
Return(i)   == st[i] = 2 /\ st' = [st EXCEPT ![i] = 3] /\ UNCHANGED <<runs, val, open, dep, known, jo, got, asks>>
JoinCall(c, i) == jo[c] = 0 /\ st[i] # 0 /\ jo' = [jo EXCEPT ![c] = i] /\ got' = [got EXCEPT ![c] = -1] /\ UNCHANGED <<st, runs, val, open, dep, known, asks>>
Joined(c)   == jo[c] # 0 /\ st[jo[c]] = 3 /\ jo' = [jo EXCEPT ![c] = 0] /\ got' = [got EXCEPT ![c] = val[jo[c]]]
               /\ known' = [known EXCEPT ![jo[c]] = TRUE] /\ UNCHANGED <<st, runs, val, open, dep, asks>>
Ask(c, i)   == asks[c][1] = 0 /\ st[i] # 0 /\ asks' = [asks EXCEPT ![c] = <<i, known[i]>>] /\ UNCHANGED <<st, runs, val, open, dep, known, jo, got>>
Over(c)     == asks[c][1] # 0 /\ st[asks[c][1]] = 3 /\ asks' = [asks EXCEPT ![c] = <<0, FALSE>>]
               /\ known' = [known EXCEPT ![asks[c][1]] = TRUE] /\ UNCHANGED <<st, runs, val, open, dep, jo, got>>
\* "no" may be out of date by the time it arrives, but not before it was asked for
NotOver(c)  == asks[c][1] # 0 /\ ~asks[c][2] /\ asks' = [asks EXCEPT ![c] = <<0, FALSE>>] /\ UNCHANGED <<st, runs, val, open, dep, known, jo, got>>
Once == \A i \in Works : runs[i] = (IF st[i] >= 2 THEN 1 ELSE 0)
Truth == \A i \in Works : known[i] => st[i] = 3
\* ------------------------------------------- whole calls, run to quiescence
RECURSIVE Ended(_, _, _)
Ended(s, o, d) ==
  LET n == [i \in Works |-> IF s[i] = 2 /\ o[i] /\ (IF d[i] = 0 THEN TRUE ELSE s[d[i]] = 3) THEN 3 ELSE s[i]] IN
  IF n = s THEN s ELSE Ended(n, o, d)
Settle(s, o, d, w, g) ==
  LET f == Ended([i \in Works |-> IF s[i] = 1 THEN 2 ELSE s[i]], o, d)
      here(c) == w[c] # 0 /\ f[w[c]] = 3 IN
  /\ st' = f /\ open' = o /\ dep' = d /\ UNCHANGED asks
  /\ runs' = [i \in Works |-> runs[i] + (IF s[i] = 1 THEN 1 ELSE 0)]
  /\ jo'  = [c \in Callers |-> IF here(c) THEN 0 ELSE w[c]]
  /\ got' = [c \in Callers |-> IF here(c) THEN val'[w[c]] ELSE g[c]]
  \* whoever joined knows, and so does a function that joined another one
  /\ known' = [i \in Works |-> known[i] \/ (\E c \in Callers : here(c) /\ w[c] = i) \/ (\E j \in Works : d[j] = i /\ f[j] = 3)]
Same == UNCHANGED <<st, runs, val, open, dep, known, jo, got, asks>>
Clean == /\ st' = [i \in Works |-> 0] /\ runs' = [i \in Works |-> 0] /\ val' = [i \in Works |-> 0] /\ dep' = [i \in Works |-> 0]
         /\ open' = [i \in Works |-> FALSE] /\ known' = [i \in Works |-> FALSE]
         /\ jo' = Nobody /\ got' = [c \in Callers |-> -1] /\ asks' = [c \in Callers |-> <<0, FALSE>>]
Learn(i) == known' = [known EXCEPT ![i] = TRUE] /\ UNCHANGED <<st, runs, val, open, dep, jo, got, asks>>
\* said: the answer of a query, as observed
Do(e, said) ==
  LET a == e.a IN
  CASE e.op = "new"     -> Clean /\ res' = Unit
    [] e.op = "spawn"   -> st[a[1]] = 0 /\ (IF a[3] = 0 THEN TRUE ELSE st[a[3]] # 0) /\ val' = [val EXCEPT ![a[1]] = a[2]] /\ res' = Unit
                           /\ Settle([st EXCEPT ![a[1]] = 1], open, [dep EXCEPT ![a[1]] = a[3]], jo, got)
    [] e.op = "open"    -> ~open[a[1]] /\ UNCHANGED val /\ res' = Unit /\ Settle(st, [open EXCEPT ![a[1]] = TRUE], dep, jo, got)
    [] e.op = "join"    -> jo[a[1]] = 0 /\ st[a[2]] # 0 /\ UNCHANGED val /\ res' = Unit
                           /\ Settle(st, open, dep, [jo EXCEPT ![a[1]] = a[2]], [got EXCEPT ![a[1]] = -1])
    [] e.op = "query"   -> /\ st[a[1]] # 0
                           /\ IF known[a[1]] \/ (st[a[1]] = 3 /\ said) THEN Learn(a[1]) /\ res' = Bool(TRUE)
                              ELSE Same /\ res' = Bool(FALSE)
    \* ask until told yes
    [] e.op = "poll"    -> st[a[1]] = 3 /\ Learn(a[1]) /\ res' = Bool(TRUE)
    [] e.op = "crowd"   -> Same /\ res' = R("crowd", <<a[1], a[1]>>)
    [] e.op = "plain"   -> Same /\ res' = R("plain", <<0, 0>>)
    [] e.op = "sleep"   -> Same /\ res' = Unit
    \* a sleep that outlasts the observation
    [] e.op = "sleeplong" -> Same /\ res' = R("asleep", <<>>)
    [] e.op = "storm"   -> Clean /\ res' = Unit
    [] e.op = "calm"    -> (\A i \in Works : st[i] \in {0, 3}) /\ jo = Nobody /\ (\A c \in Callers : asks[c][1] = 0) /\ Same /\ res' = Unit
    [] OTHER            -> FALSE
Event(d) ==
  LET i == d[2] x == d[3] IN
  /\ res' = Unit
  /\ CASE d[1] = 1 -> SpawnCall(i, x, 0)
       [] d[1] = 2 -> Begin(i)
       [] d[1] = 3 -> Return(i)
       [] d[1] = 4 -> JoinCall(i, x)
       [] d[1] = 5 -> Joined(i) /\ got'[i] = x
       [] d[1] = 6 -> Ask(i, x)
       [] d[1] = 7 -> IF x = 1 THEN Over(i) ELSE NotOver(i)
View0 == <<runs, jo, got, [i \in Works |-> IF st[i] = 3 THEN 1 ELSE 0]>>
\* at least as long as asked for: seconds and nanoseconds
Slept(a, v) == v[1] > a[1] \/ (v[1] = a[1] /\ v[2] >= a[2])
=============================================================================
