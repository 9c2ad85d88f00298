-------------------------------- MODULE Str --------------------------------
(* C23: one string, as the sequence of its characters (code points).           *)
EXTENDS SeqOps, TextOps
VARIABLES s, res
svars == <<s, res>>
\* UTF-8; a byte b that belongs to no character counts as one, with number 2000000 + b
\* (in such a string characters are not listed, taken off or changed in case)
Enc(c) == IF c >= 2000000 THEN <<c - 2000000>> ELSE IF c < 128 THEN <<c>>
          ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
          ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
          ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
Bytes(q) == Flat([i \in 1..Len(q) |-> Enc(q[i])])
\* UTF-16
Hi16(u) == u \in 55296..56319
Lo16(u) == u \in 56320..57343
RECURSIVE Well16(_)
Well16(u) == IF u = <<>> THEN TRUE
             ELSE IF Hi16(u[1]) THEN Len(u) >= 2 /\ Lo16(u[2]) /\ Well16(SubSeq(u, 3, Len(u)))
             ELSE ~Lo16(u[1]) /\ Well16(Tail(u))
RECURSIVE Dec16(_)
Dec16(u) == IF u = <<>> THEN <<>>
            ELSE IF Hi16(u[1]) THEN <<65536 + (u[1] - 55296) * 1024 + (u[2] - 56320)>> \o Dec16(SubSeq(u, 3, Len(u)))
            ELSE <<u[1]>> \o Dec16(Tail(u))
Enc16(q) == Flat([i \in 1..Len(q) |-> IF q[i] < 65536 THEN <<q[i]>> ELSE <<55296 + (q[i] - 65536) \div 1024, 56320 + ((q[i] - 65536) % 1024)>>])
\* searching: the first place at or after i (1-based) where p occurs, 0 if none
Here(q, p, i) == i + Len(p) - 1 <= Len(q) /\ \A j \in 1..Len(p) : q[i + j - 1] = p[j]
Places(q, p, i) == {k \in i..(Len(q) + 1 - Len(p)) : Here(q, p, k)}
First(q, p, i) == LET S == Places(q, p, i) IN IF S = {} THEN 0 ELSE CHOOSE k \in S : \A m \in S : k <= m
\* the pieces between occurrences that do not overlap, from the left
RECURSIVE Pieces(_, _, _)
Pieces(q, p, i) == LET k == First(q, p, i) IN
  IF k = 0 THEN <<SubSeq(q, i, Len(q))>> ELSE <<SubSeq(q, i, k - 1)>> \o Pieces(q, p, k + Len(p))
Split(q, p) == Pieces(q, p, 1)
RECURSIVE Join(_, _)
Join(ps, p) == IF Len(ps) = 1 THEN ps[1] ELSE ps[1] \o p \o Join(Tail(ps), p)
\* White_Space
Space(c) == c \in {9, 10, 11, 12, 13, 32, 133, 160, 5760, 8232, 8233, 8239, 8287, 12288} \/ c \in 8192..8202
Inner(q) == {i \in 1..Len(q) : ~Space(q[i])}
TrimWs(q) == IF Inner(q) = {} THEN <<>>
             ELSE LET lo == CHOOSE i \in Inner(q) : \A j \in Inner(q) : i <= j
                      hi == CHOOSE i \in Inner(q) : \A j \in Inner(q) : i >= j IN SubSeq(q, lo, hi)
Lower(q) == [i \in 1..Len(q) |-> IF q[i] \in 65..90 THEN q[i] + 32 ELSE q[i]]
Upper(q) == [i \in 1..Len(q) |-> IF q[i] \in 97..122 THEN q[i] - 32 ELSE q[i]]
RECURSIVE Rep(_, _)
Rep(q, n) == IF n = 0 THEN <<>> ELSE q \o Rep(q, n - 1)
\* several strings in one result: their lengths, then their characters
Many(qs) == SeqR(<<Len(qs)>> \o [i \in 1..Len(qs) |-> Len(qs[i])] \o Flat(qs))
Init == s = <<>> /\ res = Unit
Tell(r) == res' = r /\ UNCHANGED s
Do(e) ==
  LET a == e.a IN
  CASE e.op = "new"    -> s' = a /\ res' = Unit
    [] e.op = "push"   -> s' = Append(s, a[1]) /\ res' = SeqR(Append(s, a[1]))
    [] e.op = "add"    -> Tell(SeqR(s \o a))
    [] e.op = "addassign" -> s' = s \o a /\ res' = Unit
    [] e.op = "pop"    -> IF s = <<>> THEN Tell(None) ELSE s' = Front1(s) /\ res' = Some(s[Len(s)])
    [] e.op = "chars"  -> Tell(SeqR(s))
    [] e.op = "bytes"  -> Tell(SeqR(Bytes(s)))
    \* text from the bytes of given characters
    [] e.op = "fromutf8" -> s' = a /\ res' = SeqR(a)
    [] e.op = "fromutf16" -> IF Well16(a) THEN s' = Dec16(a) /\ res' = R("ok", Dec16(a)) ELSE Tell(R("err", <<>>))
    [] e.op = "len"    -> Tell(Int1(Len(Bytes(s))))
    [] e.op = "isempty" -> Tell(Bool(s = <<>>))
    [] e.op = "contains" -> Tell(Bool(First(s, a, 1) # 0))
    [] e.op = "find"   -> Tell(IF First(s, a, 1) = 0 THEN None ELSE Some(Len(Bytes(SubSeq(s, 1, First(s, a, 1) - 1)))))
    [] e.op = "split"  -> Tell(Many(Split(s, a)))
    [] e.op = "trim"   -> Tell(SeqR(TrimWs(s)))
    \* the first a[1] of what follows are what is replaced, the rest what by
    [] e.op = "replace" -> Tell(SeqR(Join(Split(s, SubSeq(a, 2, a[1] + 1)), SubSeq(a, a[1] + 2, Len(a)))))
    [] e.op = "repeat" -> Tell(SeqR(Rep(s, a[1])))
    [] e.op = "lower"  -> Tell(SeqR(Lower(s)))
    [] e.op = "upper"  -> Tell(SeqR(Upper(s)))
=============================================================================
