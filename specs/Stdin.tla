------------------------------- MODULE Stdin -------------------------------
(* C30: standard input as a stream of bytes, and callers that each read a line. *)
(* A token is a byte, or a number n >= 1000 standing for n bytes 'x'; 10 ends   *)
(* a line.  Bytes are consumed line by line, each line by one caller.           *)
EXTENDS SeqOps, TLC
CONSTANT A                \* callers
VARIABLES rest, eof,      \* what was fed and nobody has got yet; has the input ended?
          wait,           \* per caller: the handle through which it is reading, or 0
          last,           \* per caller: what its last completed read appended
          held,           \* handles whose lock somebody holds
          res
svars == <<rest, eof, wait, last, held, res>>
Callers == 1..A
NL == 10
CR == 13
Init == rest = <<>> /\ eof = FALSE /\ wait = [c \in Callers |-> 0] /\ last = [c \in Callers |-> <<>>] /\ held = {} /\ res = Unit
RECURSIVE EndOf(_, _)
EndOf(q, i) == IF i > Len(q) THEN 0 ELSE IF q[i] = NL THEN i ELSE EndOf(q, i + 1)
\* <<the line, what follows it>>, or nothing if there is no whole line yet
Split1(q, e) == LET i == EndOf(q, 1) IN
  IF i > 0 THEN <<SubSeq(q, 1, i - 1), SubSeq(q, i + 1, Len(q))>>
  ELSE IF e THEN <<q, <<>>>> ELSE <<>>
\* a carriage return before the end of the line may count as part of its terminator
Same(line, got) == got = line \/ (line # <<>> /\ line[Len(line)] = CR /\ got = Front1(line))
Reading(w, h) == {c \in Callers : w[c] # 0 /\ w[c] \notin h}
\* ---- one reader served: the fine-grained step
Serve(c, got) == LET s == Split1(rest, eof) IN
  /\ c \in Reading(wait, held) /\ s # <<>> /\ Same(s[1], got)
  /\ rest' = s[2] /\ wait' = [wait EXCEPT ![c] = 0] /\ last' = [last EXCEPT ![c] = got] /\ UNCHANGED <<eof, held, res>>
\* ---- everything served that can be: w, g are who waits and what each got, as observed
RECURSIVE Served(_, _, _, _, _, _)
Served(q, e, pend, done, g, n) ==       \* the reads in done are completed by the lines of q, in some order
  IF done = {} THEN (pend = {} \/ Split1(q, e) = <<>>) /\ n = q
  ELSE LET s == Split1(q, e) IN s # <<>> /\ \E c \in done : Same(s[1], g[c]) /\ Served(s[2], e, pend, done \ {c}, g, n)
RECURSIVE Drop1(_, _, _)
Drop1(q, e, k) == IF k = 0 THEN q ELSE LET s == Split1(q, e) IN IF s = <<>> THEN <<-1>> ELSE Drop1(s[2], e, k - 1)
Settle(q, e, w, h, ow, og) ==
  LET can == Reading(w, h) done == {c \in can : ow[c] = 0} IN
  /\ \A c \in Callers \ can : ow[c] = (IF w[c] = 0 THEN 0 ELSE 1) /\ og[c] = last[c]
  /\ \A c \in can \ done : og[c] = last[c]
  /\ rest' = Drop1(q, e, Cardinality(done))
  /\ Served(q, e, can \ done, done, og, rest')
  /\ eof' = e /\ held' = h /\ last' = og
  /\ wait' = [c \in Callers |-> IF c \in done THEN 0 ELSE w[c]]
\* o: per caller what is seen afterwards: <<1 if reading, 1 if what was in its buffer before is still there, what was appended...>>
Able(e) == CASE e.op = "read" -> wait[e.a[1]] = 0 /\ (\A c \in Callers : wait[c] \in {0, e.a[2]})
             [] e.op = "hold" -> e.a[1] \notin held /\ (\A c \in Callers : wait[c] # e.a[1])
             [] e.op = "drop" -> e.a[1] \in held
             [] OTHER -> TRUE
Do(e, o) ==
  LET a == e.a
      ow == [c \in Callers |-> o[c][1]]
      og == [c \in Callers |-> SubSeq(o[c], 3, Len(o[c]))] IN
  /\ res' = (IF Able(e) THEN Unit ELSE R("skip", <<>>))
  /\ CASE ~Able(e) -> UNCHANGED <<rest, eof, wait, last, held>>
       [] e.op = "new"  -> rest' = <<>> /\ eof' = FALSE /\ wait' = [c \in Callers |-> 0] /\ last' = [c \in Callers |-> <<>>] /\ held' = {}
       [] e.op = "feed" -> ~eof /\ Settle(rest \o a, FALSE, wait, held, ow, og)
       [] e.op = "eof"  -> ~eof /\ Settle(rest, TRUE, wait, held, ow, og)
       [] e.op = "read" -> Settle(rest, eof, [wait EXCEPT ![a[1]] = a[2]], held, ow, og)
       [] e.op = "hold" -> Settle(rest, eof, wait, held \cup {a[1]}, ow, og)
       [] e.op = "drop" -> Settle(rest, eof, wait, held \ {a[1]}, ow, og)
       [] OTHER         -> FALSE
Intact(o) == \A c \in Callers : o[c][2] = 1
=============================================================================
