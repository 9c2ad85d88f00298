----------------------------- MODULE MC_Mutex ------------------------------
(* Scripts: every schedule of whole calls up to Depth.                         *)
EXTENDS Mutex, Json
CONSTANTS Depth
VARIABLES hist
mcv == <<mvars, hist>>
C(op, a) == [op |-> op, a |-> a]
MCInit == Init /\ hist = <<>>
Start == hist = <<>> /\ \E t \in {0, 1} : LET e == C("new", <<t, 5>>) IN Do(e, pc) /\ hist' = <<e>>
\* callers are interchangeable: a new one is the smallest that has not acted
Known == {hist[i].a[1] : i \in 2..Len(hist)} \ {0}
May(c) == c = 0 \/ c \in Known \/ c = Cardinality(Known) + 1
Calls == {C(o, <<c>>) : o \in {"lock", "trylock", "unlock"}, c \in Callers} \cup {C("set", <<c, 10 * Len(hist) + c>>) : c \in Callers}
         \cup {C(o, <<0>>) : o \in {"lock2", "trylock2", "unlock2"}}
Next1 == hist # <<>> /\ Len(hist) <= Depth /\ \E e \in Calls : May(e.a[1]) /\ Able(e) /\ \E d \in Callers :
           /\ Do(e, [x \in Callers |-> IF x = d THEN 2 ELSE 0]) /\ hist' = Append(hist, e)
MCSpec == MCInit /\ [][Start \/ Next1]_mcv
Emit == IF Len(hist') = Depth + 1 THEN PrintT("SCRIPT " \o ToJson(hist')) ELSE TRUE
\* at quiescence somebody waits only while somebody holds
NoLostHandOver == Waiters # {} => ~Free
=============================================================================
