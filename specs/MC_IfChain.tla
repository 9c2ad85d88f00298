----------------------------- MODULE MC_IfChain -----------------------------
(* Every chain of up to MaxConds conditions with every evaluation point, and   *)
(* every nesting of two levels.  Scripts: the calls alone.                     *)
EXTENDS IfChain, TLC, Json
CONSTANTS MaxConds, Types, KeepTypes, MaxNest
VARIABLES hist
mcv == <<cvars, hist>>
C(op, a) == [op |-> op, a |-> a]
MCInit == Init /\ hist = <<>>
Start == hist = <<>> /\ \E t \in Types : hist' = <<C("new", <<t>>)>> /\ UNCHANGED cvars
Ws == {<<>>} \cup {<<i>> : i \in 1..(MaxConds + 1)} \cup {<<i, j>> : i, j \in 1..(MaxNest + 1)}
Short == IF kept = <<>> THEN MaxConds ELSE MaxConds - 1
Step == /\ hist # <<>> /\ phase # "closed" /\ hist[Len(hist)].op # "nest"
        /\ \E w \in Ws, c \in {0, 1}, z \in {0, 1} :
             LET v == z * (Len(conds) + 1)      \* what it yields: its number, or nothing
                 e == C(IF phase = "none" THEN "if" ELSE "elseif", <<c, v>>) IN
             /\ Len(conds) < Short
             /\ Do(e, w) /\ hist' = Append(hist, e)
Close == /\ hist # <<>> /\ phase = "open"
         /\ \E w \in Ws, z \in {0, 1} : LET e == C("else", <<z * (Len(conds) + 1)>>) IN Do(e, w) /\ hist' = Append(hist, e)
\* a chain kept early, and continued again from there
Keep1 == /\ hist # <<>> /\ phase = "open" /\ kept = <<>> /\ hist[1].a[1] \in KeepTypes /\ Len(conds) < MaxConds - 1
         /\ LET e == C("keep", <<>>) IN Do(e, log) /\ hist' = Append(hist, e)
Back1 == /\ kept # <<>> /\ \A i \in 1..Len(hist) : hist[i].op # "back"
         /\ (phase = "closed" \/ Len(conds) > Len(kept[1]))
         /\ LET e == C("back", <<>>) IN Do(e, kept[3]) /\ hist' = Append(hist, e)
Nest == /\ Len(hist) = 1 /\ hist[1].a = <<0>>
        /\ \E m \in 1..MaxNest, cs \in [1..(MaxNest * (MaxNest + 2)) -> {0, 1}], w \in Ws :
              LET e == C("nest", <<m>> \o SubSeq(cs, 1, m * (m + 2))) IN Do(e, w) /\ hist' = Append(hist, e)
MCSpec == MCInit /\ [][Start \/ Step \/ Close \/ Keep1 \/ Back1 \/ Nest]_mcv
View == <<hist, phase, log>>
\* eager chains suffice as scripts: the calls are the same
Emit == IF (phase' = "closed" /\ (log = log' \/ Holds(conds) = {})) \/ (hist' # <<>> /\ hist'[Len(hist')].op = "nest")
        THEN PrintT("SCRIPT " \o ToJson(hist')) ELSE TRUE
NestOk == (hist # <<>> /\ hist[Len(hist)].op = "nest") => Len(log) = 2 /\ res.v[1] = 10 * log[1] + log[2]
AtMost == (hist # <<>> /\ hist[Len(hist)].op # "nest") => AtMostOne
=============================================================================
