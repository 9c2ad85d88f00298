----------------------------- MODULE MC_Sorting -----------------------------
(* All sequences over Ks keys up to MaxLen (equal keys tagged by position):  *)
(* every sort from every one of them, in both containers, then every search. *)
(* Also checks the specification: a stable sort exists and is unique, and it *)
(* is one of the unstable outcomes.                                          *)
EXTENDS Sorting, TLC, Json
CONSTANTS Ks, MaxLen
VARIABLES hist, phase
C(op, a) == [op |-> op, a |-> a]
Seqs == UNION {[1..n -> Ks] : n \in 0..MaxLen}
Tagged(q) == [i \in 1..Len(q) |-> q[i] * 100 + i]
\* the stable sort, computed by insertion
RankN(m, x) == IF m < 0 THEN Nat0(x) ELSE Rank(m, x)
RECURSIVE Ins(_, _, _)
Ins(x, q, m) == IF q = <<>> THEN <<x>>
                ELSE IF RankN(m, q[Len(q)]) <= RankN(m, x) THEN Append(q, x)
                ELSE Append(Ins(x, Front1(q), m), q[Len(q)])
RECURSIVE StableSort(_, _)
StableSort(q, m) == IF q = <<>> THEN <<>> ELSE Ins(q[Len(q)], StableSort(Front1(q), m), m)
Targets == Ks \cup {0, 9} \cup {0 - 1, 0 - 2}
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SetSeq(S \ {x})
Srch == LET q == SetSeq(Ks \cup {0, 9}) IN [i \in 1..Len(q) |-> C("bsearch", <<q[i] * 100 + 50>>)]
SrchBy(m) == LET q == SetSeq(Targets) IN [i \in 1..Len(q) |-> C("bsearchby", <<m, q[i]>>)]
MCInit == /\ Init /\ phase = 0 /\ hist = <<>>
ModeOf(e) == IF e.op \in {"sort", "sortu"} THEN 0 - 1 ELSE e.a[1]
MCNext ==
  \/ /\ phase = 0
     /\ \E c \in {0, 1}, n \in {0, 3} : New(c, 0) /\ hist' = <<C("new", <<c, 0, n>>)>>
     /\ phase' = 1
  \/ /\ phase = 1
     /\ \E q \in Seqs : Load(Tagged(q)) /\ hist' = Append(hist, C("load", Tagged(q)))
     /\ phase' = 2
  \/ /\ phase = 2
     /\ \E n \in (IF cont = 0 THEN {0} ELSE {0, 1, 2}) : RotR(n) /\ hist' = (IF n = 0 THEN hist ELSE Append(hist, C("rot", <<n>>)))
     /\ phase' = 3
  \/ /\ phase = 3
     /\ \E e \in {C("sort", <<>>), C("sortu", <<>>)} \cup {C(op, <<m>>) : op \in {"sortby", "sortuby"}, m \in {1, 2}} :
          /\ LET t == StableSort(s, ModeOf(e)) IN
               CASE e.op = "sort" -> Sort(t) [] e.op = "sortu" -> SortU(t)
                 [] e.op = "sortby" -> SortBy(e.a[1], t) [] e.op = "sortuby" -> SortUBy(e.a[1], t)
          /\ hist' = Append(hist, e) \o (IF e.op \in {"sort", "sortu"} THEN Srch ELSE SrchBy(e.a[1]))
     /\ phase' = 4
MCSpec == MCInit /\ [][MCNext]_<<svars, hist, phase>>
Emit == phase' = 4 => PrintT("SCRIPT " \o ToJson(hist'))
View == <<s, cont, ty, phase, hist>>
\* from every loaded sequence some outcome of every sort exists: no phase-3 state is stuck
Progress == phase = 3 => \A m \in {0, 1, 2, 3} : LET t == StableSort(s, m) IN
                            StableSortOf(s, t, LAMBDA x : Rank(m, x)) /\ SortOf(s, t, LAMBDA x : Rank(m, x))
=============================================================================
