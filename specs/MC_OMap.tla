------------------------------ MODULE MC_OMap ------------------------------
(* Histories of the ordered map.  Small: all histories over few keys up to   *)
(* Depth.  Grown: load Sizes keys in ascending, descending or interleaved     *)
(* order, then every single call on every key (a deletion met by a tree of    *)
(* every size and fill), then a second deletion next to the first.           *)
EXTENDS OMap, Json
CONSTANTS Kinds, NKeys, Depth, Sizes, Tail2
VARIABLE hist, grown
C(op, a) == [op |-> op, a |-> a]
mcv == <<m, kind, ty, res, hist, grown>>
Small == {C("ins", <<k * 100 + t, 10 * Len(hist) + k>>) : k \in 1..NKeys, t \in {0, 1}}
         \cup {C("rem", <<k * 100>>) : k \in 1..NKeys} \cup {C("get", <<k * 100>>) : k \in 1..NKeys}
         \cup {C("has", <<k * 100>>) : k \in 1..NKeys}
         \cup {C(op, <<>>) : op \in {"len", "isempty", "clear", "iter", "keys", "values", "display"}}
Loads(n) == {<<C("load", <<n, 1, 1>>)>>, <<C("load", <<n, n, 0 - 1>>)>>,
             <<C("load", <<(n + 1) \div 2, 1, 2>>), C("load", <<n \div 2, 2, 2>>)>>}
RECURSIVE DoAll(_, _)
Keys1(n) == 1..n
MCInit == Init /\ hist = <<>> /\ grown = 0
DoAll(q, mm) == IF q = <<>> THEN mm ELSE DoAll(Tail(q), Steps(q[1].a[1], q[1].a[2], q[1].a[3]) \cup mm)
MCNext ==
  \/ /\ hist = <<>> /\ grown' = 0
     /\ \E kd \in Kinds, t \in {0} : New(<<kd, t>>) /\ hist' = <<C("new", <<kd, t, NKeys, 1>>)>>
  \/ /\ hist # <<>> /\ grown = 0 /\ grown' = 0
     /\ \E e \in Small : Do(e) /\ hist' = Append(hist, e)
  \/ /\ hist = <<>>
     /\ \E n \in Sizes, kd \in Kinds : \E ld \in Loads(n) :
          /\ m' = [k \in DoAll(ld, {}) |-> <<k, IF kd = 0 THEN k \div 100 ELSE 0>>]
          /\ kind' = kd /\ ty' = 0 /\ res' = Unit
          /\ hist' = <<C("new", <<kd, 0, n + 1, 1000000>>)>> \o ld
          /\ grown' = n
  \/ /\ grown > 0
     /\ \E k \in 1..grown :
          /\ Do(C("rem", <<k * 100>>))
          /\ hist' = hist \o <<C("rem", <<k * 100>>), C("probe", <<>>), C("iter", <<>>)>>
                     \o [j \in 1..(2 * Tail2) |-> IF j % 2 = 1 THEN C("rem", <<(((k + (j + 1) \div 2 - 1) % grown) + 1) * 100>>) ELSE C("probe", <<>>)]
     /\ grown' = 0 - 1
MCSpec == MCInit /\ [][MCNext]_mcv
Bound == grown # 0 \/ Len(hist) <= Depth
View == <<[k \in DOMAIN m |-> m[k][1]], kind, grown, hist = <<>>, IF grown = 0 THEN <<>> ELSE hist>>
Emit == ((grown' = 0 /\ Bound') \/ grown' = 0 - 1) => PrintT("SCRIPT " \o ToJson(hist'))
\* laws
Stored == \A k \in DOMAIN m : KeyOf(m[k][1]) = k
EnumOK == grown = 0 => Enumerates(Column(1))
=============================================================================
