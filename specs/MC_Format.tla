----------------------------- MODULE MC_Format -----------------------------
(* Every template of up to MaxTok tokens (plain characters of one to four      *)
(* bytes, doubled braces, placeholders), with every number of arguments, one   *)
(* of which displays as a placeholder itself; every shape of container.        *)
EXTENDS Format, TLC, Json
CONSTANTS MaxTok, MaxArgs, Elems
VARIABLES t, hist
mcv == <<fvars, t, hist>>
C(op, a) == [op |-> op, a |-> a]
Toks == {<<97>>, <<37>>, <<128512>>, <<123, 123>>, <<125, 125>>, <<123, 125>>}
\* arguments to choose from, by position
Pool == << <<1, 2, 123, 125>>, <<0, 0 - 12>>, <<10, 1, 0, 5>>, <<3, 2, 0, 1, 0, 2>>, <<1, 0>> >>
Args(n) == FlattenSeq([i \in 1..n |-> Pool[i]])
Call(toks, n) == LET q == FlattenSeq(toks) IN <<Len(q)>> \o q \o <<n>> \o Args(n)
\* containers: all short lists of elements, of every kind, alone and nested once
Lists(S, n) == UNION {[1..k -> S] : k \in 0..n}
Ints(q) == FlattenSeq([i \in 1..Len(q) |-> <<0, q[i]>>])
Distinct(q) == \A i, j \in 1..Len(q) : i # j => q[i] # q[j]
Words == << <<>>, <<123>>, <<125, 125>>, <<123, 125>>, <<97, 44, 32>>, <<97, 58>>, <<128512>>, <<228>>, <<37, 115>> >>
Plain == {<<k, Len(q)>> \o Ints(q) : k \in {3, 4, 5}, q \in Lists(Elems, 3)}
         \cup {<<k, Len(q)>> \o q : k \in {6, 7}, q \in {p \in Lists(Elems, 3) : Distinct(p)}}
         \cup {<<k, Len(q)>> \o FlattenSeq([i \in 1..Len(q) |-> <<q[i], 1, 2, 97, 44>>]) : k \in {8, 9}, q \in {p \in Lists(Elems, 3) : Distinct(p)}}
         \cup {<<k, Len(q)>> \o FlattenSeq([i \in 1..Len(q) |-> <<Len(Words[q[i]])>> \o Words[q[i]]]) : k \in {15, 16}, q \in {p \in Lists(1..Len(Words), 3) : Distinct(p)}}
         \cup {<<k, Len(q)>> \o FlattenSeq([i \in 1..Len(q) |-> <<Len(Words[q[i]])>> \o Words[q[i]] \o <<0, i>>]) : k \in {13, 14}, q \in {p \in Lists(1..Len(Words), 2) : Distinct(p)}}
         \cup {<<0, n>> : n \in Elems} \cup {<<2, 0>>, <<2, 1>>, <<1, 0>>, <<1, 3, 228, 123, 125>>, <<10, 0>>, <<11, 0, 1, 2, 110, 111>>}
Small == {v \in Plain : Len(v) <= 6}
Nested == {<<k, 2>> \o v \o <<0, 7>> : k \in {3, 4, 5}, v \in Small} \cup {<<k, 2>> \o v \o v : k \in {3, 4, 5}, v \in Small}
          \cup {<<8, 2, 2>> \o v \o <<1>> \o v : v \in Small} \cup {<<9, 1, 3>> \o v : v \in Small}
          \cup {<<k, 1>> \o v : k \in {10, 11}, v \in {w \in Plain : w[1] \in {0, 1, 2, 3} /\ Len(w) <= 8}}
          \cup {<<10, 1, 10, 0>>, <<10, 1, 10, 1, 0, 4>>}
MCInit == Init /\ hist = <<>> /\ t = <<>>
Grow == hist = <<>> /\ Len(t) < MaxTok /\ \E k \in Toks : t' = Append(t, k) /\ UNCHANGED <<hist, res>>
Calls(q, n) == LET a == Call(q, n) IN
   <<C("new", <<>>), C("format", a)>> \o (IF Texts(a) = {} THEN <<>> ELSE <<C("println", a), C("print", a)>>)
Use == hist = <<>> /\ \E n \in 0..MaxArgs : hist' = Calls(t, n) /\ UNCHANGED <<t, res>>
Show == t = <<>> /\ hist = <<>> /\ \E v \in Plain \cup Nested : hist' = <<C("new", <<>>), C("display", v), C("format", <<3, 60, 123, 125, 1>> \o v)>> /\ UNCHANGED <<t, res>>
MCSpec == MCInit /\ [][Grow \/ Use \/ Show]_mcv
Emit == IF hist' = <<>> THEN TRUE ELSE PrintT("SCRIPT " \o ToJson(hist'))
\* laws
Text(q) == FlattenSeq(q)
Escaped(q) == FlattenSeq([i \in 1..Len(q) |-> IF q[i] \in {123, 125} THEN <<q[i], q[i]>> ELSE <<q[i]>>])
Holes == Cardinality({i \in 1..Len(t) : t[i] = <<123, 125>>})
Literal == Fill(Escaped(Text(t)), <<>>) = {Text(t)}
Missing == \A n \in 0..MaxArgs : (Texts(Call(t, n)) = {}) = (n < Holes)
Surplus == \A n \in Holes..MaxArgs : Texts(Call(t, n)) = Texts(Call(t, Holes))
=============================================================================
