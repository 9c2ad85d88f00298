----------------------------- MODULE MC_Assert -----------------------------
(* Every pair of operands of a small set per type, with every form of message, *)
(* plain, with arguments, with too few and too many of them.                   *)
EXTENDS Assert, TLC, Json
CONSTANTS Full
VARIABLES hist
mcv == <<fvars, hist>>
C(op, a) == [op |-> op, a |-> a]
Operands == <<
  {<<0, n>> : n \in {0, 1, 0 - 1}},
  {<<1, 0>>, <<1, 1, 97>>, <<1, 2, 97, 98>>, <<1, 2, 123, 125>>},
  {<<2, 0>>, <<2, 1>>},
  {<<3, 0>>, <<3, 1, 0, 1>>, <<3, 2, 0, 1, 0, 2>>, <<3, 2, 0, 2, 0, 1>>},
  {<<5, 0>>, <<5, 1, 0, 1>>, <<5, 2, 0, 1, 0, 2>>, <<5, 2, 0, 2, 0, 1>>},
  {<<7, 0>>, <<7, 1, 4>>, <<7, 2, 4, 5>>, <<7, 2, 5, 4>>},
  {<<10, 0>>, <<10, 1, 0, 1>>, <<10, 1, 0, 2>>},
  {<<20, i>> : i \in 0..4},
  {<<21, i>> : i \in {3, 13, 4, 0}} >>
Pairs == UNION {{<<x, y>> : x \in Operands[k], y \in Operands[k]} : k \in 1..Len(Operands)}
Tmpl(t, n) == <<Len(t)>> \o t \o <<n>> \o FlattenSeq(SubSeq(<< <<0, 42>>, <<1, 2, 123, 125>>, <<3, 1, 0, 9>> >>, 1, n))
Msgs == {<<2>>} \cup {<<f>> \o m : f \in {0, 1},
            m \in {Tmpl(<<>>, 0), Tmpl(<<104, 105>>, 0), Tmpl(<<104, 123, 125>>, 1), Tmpl(<<123, 125, 58, 123, 125>>, 2), Tmpl(<<123, 125>>, 0),
                   Tmpl(<<123, 125, 123, 125>>, 1), Tmpl(<<123, 123, 125, 125, 37, 115>>, 1), Tmpl(<<123, 125>>, 3), Tmpl(<<123, 125, 123, 125, 123, 125>>, 3)}}
Used == IF Full THEN Msgs ELSE {m \in Msgs : Len(m) \in {1, 5, 7, 13}}
Ops(x, y) == <<Len(x)>> \o x \o <<Len(y)>> \o y
MCInit == Init /\ hist = <<>>
Say == {C("panic", m) : m \in Msgs \ {<<2>>}} \cup {C("assert", <<c>> \o m) : c \in {0, 1}, m \in Msgs}
       \cup {C(o, a) : o \in {"unimplemented", "unreachable", "todo"}, a \in {<<>>, <<1>>, <<1, 104, 105>>, <<1, 37, 123, 125>>}}
Pick == hist = <<>> /\ UNCHANGED res
        /\ \/ \E e \in Say : hist' = <<C("new", <<>>), e>>
           \/ \E p \in Pairs, m \in Used : hist' = <<C("new", <<>>), C("eq", Ops(p[1], p[2]) \o m), C("ne", Ops(p[1], p[2]) \o m)>>
MCSpec == MCInit /\ [][Pick]_mcv
Emit == PrintT("SCRIPT " \o ToJson(hist'))
\* laws: equality and inequality are never both satisfied, nor both violated;
\* equality is symmetric
Pairwise == \A p \in Pairs : Same(p[1], p[2]) = Same(p[2], p[1])
Opposite == (hist # <<>> /\ hist[2].op = "eq") =>
            \A r \in {R("returned", <<>>), R("panicked", <<>>)} : ~(AJudge(hist[2], R("returned", <<>>)) /\ AJudge(hist[3], R("returned", <<>>)))
=============================================================================
