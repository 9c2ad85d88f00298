------------------------------- MODULE MC_Vec -------------------------------
(* Exhaustive exploration of Vec within small constants; prints one script   *)
(* per transition (shortest history to its source state plus the call).      *)
EXTENDS Vec, TLC, Json
CONSTANTS Elems, MaxLen, MaxO, Depth
VARIABLE hist
C(op, a) == [op |-> op, a |-> a, v |-> <<1000>>]
Idx == 0..MaxLen
Huge == {-1, -1073741824, -536870912}
Calls ==
  {C("push", <<x>>) : x \in Elems} \cup {C("fill", <<x>>) : x \in Elems}
  \cup {C("contains", <<x>>) : x \in Elems} \cup {C("fillwith", <<x>>) : x \in Elems}
  \cup {C(op, <<>>) : op \in {"pop", "reverse", "dedup", "append", "xchg", "clear", "capacity", "len", "isempty", "asslice", "iter"}}
  \cup {C("insert", <<i, x>>) : i \in Idx, x \in Elems} \cup {C("set", <<i, x>>) : i \in Idx \cup Huge, x \in Elems}
  \cup {C("get", <<i>>) : i \in Idx \cup Huge} \cup {C("getun", <<i>>) : i \in Idx} \cup {C("setun", <<i, 202>>) : i \in Idx}
  \cup {C("swap", <<i, j>>) : i \in Idx, j \in Idx}
  \cup {C("retain", <<2, r>>) : r \in {0, 1}} \cup {C("dedupkey", <<m>>) : m \in {1, 2, 3}}
  \cup {C("reserve", <<n>>) : n \in {0, 3}}
News == {C("new", <<t, m, n>>) : t \in {0}, m \in {0, 1, 2}, n \in {0, 2}}
MCInit == Init /\ hist = <<>>
MCNext == \E e \in (IF hist = <<>> THEN News ELSE Calls) : Do(e) /\ hist' = Append(hist, [op |-> e.op, a |-> e.a])
MCSpec == MCInit /\ [][MCNext]_<<vvars, hist>>
Bound == Len(s) <= MaxLen /\ Len(o) <= MaxO /\ Len(hist) <= Depth
View  == <<s, o, hist = <<>>>>
Emit  == Bound' => PrintT("SCRIPT " \o ToJson(hist'))

\* laws of the specification itself, checked at every transition
Laws == [][/\ (res'.k = "opt" /\ res'.v # <<>> /\ Len(s') < Len(s)) => Append(s', res'.v[1]) = s
           /\ Len(s') + Len(o') <= Len(s) + Len(o) + 2
           /\ res'.k = "cap" => res'.v[1] >= Len(s')]_<<vvars, hist>>
DedupOK == \A m \in {1, 2, 3} : LET d == DedupBy(s, LAMBDA x : Key(x) % m)
                                IN /\ \A i \in 1..(Len(d) - 1) : Key(d[i]) % m # Key(d[i + 1]) % m
                                   /\ IsSubseqOf(d, s)
                                   /\ s # <<>> => d[1] = s[1]
RevOK == Rev(Rev(s)) = s
=============================================================================
