----------------------------- MODULE MC_SetAlg -----------------------------
(* Every pair of subsets of a small universe with every operation, result    *)
(* kept apart and result replacing an operand; the laws of set algebra.       *)
EXTENDS SetAlg, Json
CONSTANTS N, Types
VARIABLE hist
C(op, a) == [op |-> op, a |-> a]
mcv == <<s, ord, res, hist>>
RECURSIVE Asc(_)
Asc(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : \A y \in S : x <= y IN <<x>> \o Asc(S \ {x})
Subs == SUBSET {k * 100 : k \in 1..N}
Two == {C(op, <<i, j, k>>) : op \in {"inter", "union", "symdiff"}, i \in 1..2, j \in 1..2, k \in {1, 2, 3}}
       \cup {C(op, <<i, j>>) : op \in {"subset", "superset", "disjoint", "eq"}, i \in 1..2, j \in 1..2}
MCInit == Init /\ hist = <<>>
\* load both operands in one step; then one operation; then one more
MCNext ==
  \/ /\ hist = <<>>
     /\ \E kd \in {0, 1}, ty \in Types, S1 \in Subs, S2 \in Subs :
          /\ ord' = (kd = 1 /\ ty = 0) /\ res' = Unit
          /\ s' = [i \in Slots |-> CASE i = 1 -> S1 [] i = 2 -> S2 [] OTHER -> {}]
          /\ hist' = <<C("new", <<kd, ty, N>>), C("load", <<1>> \o Asc(S1)), C("load", <<2>> \o Rev(Asc(S2)))>>
  \/ /\ Len(hist) = 3 /\ \E e \in Two : Do(e) /\ hist' = Append(hist, e)
MCSpec == MCInit /\ [][MCNext]_mcv
Emit == Len(hist') = 4 => PrintT("SCRIPT " \o ToJson(hist'))
A == s[1]
B == s[2]
Laws == Len(hist) = 3 =>
  /\ ((A \ B) \cup (B \ A)) = (A \cup B) \ (A \cap B)
  /\ (A \subseteq B <=> A \cap B = A) /\ (A \subseteq B <=> A \cup B = B)
  /\ (A \cap B = {} <=> Cardinality(A \cup B) = Cardinality(A) + Cardinality(B))
  /\ (A = B <=> (A \subseteq B /\ B \subseteq A))
=============================================================================
