----------------------------- MODULE MC_Duration -----------------------------
(* Every constructor at its boundary arguments, then every query.             *)
EXTENDS Duration, TLC, Json
CONSTANT D
VARIABLES hist, i
mcv == <<dvars, hist, i>>
Near(c) == {AddI(c, Z(k)) : k \in (0 - D)..D}
In(S, w) == {n \in S : InRange(n, w, FALSE)}
B64 == In(UNION {Near(c) : c \in {Zero, Z(1000), Z(1000000), Ns("s"), MaxSecs, SubI(MaxSecs, Z(3)), Pow2(32), Pow2(63), MulI(Pow2(32), Z(1000)),
                                  QuoI(MaxSecs, Z(1000)), Z(1999), Z(999999999), Z(1500000001)}}, 64)
B32 == In(UNION {Near(c) : c \in {Zero, Z(999), Z(999999), Ns("s"), Z(999999999), Z(1999999999), MulI(Ns("s"), Z(4)), Pow2(31), MaxI(32, FALSE),
                                  MulI(Ns("s"), Z(3)), Z(1000), Z(1000000)}}, 32)
C(op, a) == [op |-> op, a |-> a]
Queries == <<"iszero", "assecs", "submillis", "submicros", "subnanos", "asmillis", "asmicros", "asnanos">>
MCInit == Init /\ hist = <<>> /\ i = 0
Make == /\ i = 0 /\ i' = 1
        /\ \E e \in {C("dnew", Log12(a) \o Log12(b)) : a \in B64, b \in B32}
                 \cup {C(op, Log12(a)) : op \in {"fromsecs", "frommillis", "frommicros", "fromnanos"}, a \in B64} : Do(e) /\ hist' = <<C("new", <<>>), e>>
Ask == /\ i \in 1..Len(Queries) /\ res # Panic /\ Do(C(Queries[i], <<>>)) /\ hist' = Append(hist, C(Queries[i], <<>>)) /\ i' = i + 1
MCNext == Make \/ Ask
MCSpec == MCInit /\ [][MCNext]_mcv
View == <<hist = <<>>, IF hist = <<>> THEN <<>> ELSE hist[2], i>>
Emit == (res' = Panic \/ i' > Len(Queries)) => PrintT("SCRIPT " \o ToJson(hist'))
Normal == /\ CmpI(Sub(d), Ns("s")) < 0 /\ ~IsNeg(d)
          /\ AddI(MulI(Secs(d), Ns("s")), Sub(d)) = d
          /\ CmpI(Secs(d), MaxSecs) <= 0
\* only the general constructor can overflow
Panics == res = Panic => hist[2].op = "dnew"
=============================================================================
