------------------------------- MODULE IfChain -------------------------------
(* C24: a conditional chain, built one branch at a time.                       *)
EXTENDS SeqOps
VARIABLES phase,     \* "none", "open" or "closed"
          conds,     \* conditions so far
          vals,      \* what the branches yield
          log,       \* which branches have been evaluated, in order
          kept,      \* an unfinished chain put aside (conds, vals, log), <<>> if none
          res
cvars == <<phase, conds, vals, log, kept, res>>
Holds(cs) == {i \in 1..Len(cs) : cs[i] = 1}
\* the first branch whose condition holds; the alternative's number if none does
Chosen(cs, alt) == IF Holds(cs) = {} THEN alt ELSE CHOOSE i \in Holds(cs) : \A j \in Holds(cs) : i <= j
Init == phase = "none" /\ conds = <<>> /\ vals = <<>> /\ log = <<>> /\ kept = <<>> /\ res = Unit
\* w: the branches evaluated so far, as observed; a chain may evaluate its
\* branch when it meets it or only at the end
Do(e, w) ==
  CASE e.op = "new" -> /\ phase' = "none" /\ conds' = <<>> /\ vals' = <<>> /\ log' = <<>> /\ kept' = <<>> /\ res' = Unit
    [] e.op \in {"if", "elseif"} ->      \* a = <<condition, what the branch yields>>
         /\ phase = IF e.op = "if" THEN "none" ELSE "open"
         /\ phase' = "open"
         /\ conds' = Append(conds, e.a[1]) /\ vals' = Append(vals, e.a[2])
         /\ \/ log' = log
            \/ log = <<>> /\ Holds(conds') # {} /\ log' = <<Chosen(conds', 0)>>
         /\ log' = w
         /\ res' = Unit /\ UNCHANGED kept
    [] e.op = "else" ->                  \* a = <<what the alternative yields>>
         LET n == Len(conds) + 1 c == Chosen(conds, n) IN
         /\ phase = "open" /\ phase' = "closed"
         /\ UNCHANGED <<conds, kept>> /\ vals' = Append(vals, e.a[1])
         /\ log' = <<c>> /\ log' = w
         /\ res' = Int1(vals'[c])
    \* a chain may be continued more than once from where it was kept
    [] e.op = "keep" -> /\ phase = "open" /\ kept' = <<conds, vals, log>> /\ log = w
                        /\ UNCHANGED <<phase, conds, vals, log>> /\ res' = Unit
    [] e.op = "back" -> /\ kept # <<>> /\ phase' = "open" /\ conds' = kept[1] /\ vals' = kept[2] /\ log' = kept[3] /\ log' = w
                        /\ res' = Unit /\ UNCHANGED kept
    \* a chain whose branches are chains themselves: m conditions and m + 1
    \* rows of m conditions; what is evaluated is row and place
    [] e.op = "nest" ->
         LET m == e.a[1]
             row(i) == SubSeq(e.a, 2 + i * m, 1 + (i + 1) * m)     \* row 0: the outer conditions
             o == Chosen(row(0), m + 1) i == Chosen(row(o), m + 1) IN
         /\ phase = "none" /\ UNCHANGED <<phase, conds, vals, kept>>
         /\ log' = <<o, i>> /\ log' = w
         /\ res' = Int1(10 * o + i)
\* an evaluated branch is the first whose condition holds, and never changes
AtMostOne == phase # "none" => Len(log) <= 1
Stable == [][phase = "open" /\ phase' # "none" /\ log # <<>> => log' = log \/ <<conds', vals', log'>> = kept]_cvars
Exact == phase = "closed" => log = <<Chosen(conds, Len(conds) + 1)>> /\ res.v[1] = vals[log[1]]
=============================================================================
