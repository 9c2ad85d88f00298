----------------------------- MODULE MC_FileSys -----------------------------
(* From a few starting trees: every call on every path, every pair of calls.   *)
EXTENDS FileSys, Json
CONSTANTS Paths3,    \* also paths of three names
          Depth
VARIABLES hist, n
mcv == <<fvars, hist, n>>
C(op, a) == [op |-> op, a |-> a]
W(p) == <<Len(p)>> \o p
\* names 1, 2: usually files; 3: usually a directory; 4: usually a link
Setups == <<
  <<C("write", W(<<1>>) \o <<97, 3>>), C("createdir", W(<<3>>)), C("write", W(<<3, 1>>) \o <<0, 2, 9, 1>>)>>,
  <<C("createdir", W(<<3>>)), C("createdir", W(<<3, 3>>)), C("write", W(<<2>>) \o <<250, 9>>), C("symlink", W(<<4>>) \o <<3>>)>>,
  <<C("write", W(<<1>>) \o <<65, 1>>), C("chmod", W(<<1>>) \o <<256>>), C("write", W(<<2>>)), C("symlink", W(<<4>>) \o <<1>>), C("createdir", W(<<3>>))>>,
  <<C("symlink", W(<<4>>) \o <<2>>), C("symlink", W(<<2>>) \o <<4>>), C("createdir", W(<<3>>)), C("write", W(<<3, 1>>) \o <<5, 700>>), C("chmod", W(<<3>>) \o <<365>>)>>,
  <<C("createdir", W(<<3>>)), C("write", W(<<3, 1>>) \o <<5, 7>>), C("write", W(<<1>>) \o <<66, 2>>), C("chmod", W(<<1>>) \o <<128>>), C("chmod", W(<<3>>) \o <<237>>)>>,
  <<C("symlink", W(<<4>>) \o <<1>>), C("createdir", W(<<3>>)), C("symlink", W(<<3, 4>>) \o <<9>>)>> >>
Ps == {<<1>>, <<2>>, <<3>>, <<4>>, <<3, 1>>, <<3, 3>>, <<3, 4>>, <<4, 1>>} \cup (IF Paths3 THEN {<<3, 3, 1>>, <<1, 1>>, <<4, 3, 1>>} ELSE {})
Calls == {C(o, W(p)) : o \in {"createdir", "removedir", "removefile", "read", "readtostring", "readdir"}, p \in Ps}
         \cup {C("readdir", W(<<>>))}
         \cup {C("write", W(p) \o c) : p \in Ps, c \in {<<>>, <<120, 2>>}}
         \cup {C(o, W(p) \o q) : o \in {"copy", "rename"}, p \in Ps, q \in Ps}
MCInit == Init /\ hist = <<>> /\ n = 0
Listing(w) == LET S == Children(w) IN
  IF S = {} THEN <<>> ELSE FlattenSeq(LET q == CHOOSE f \in [1..Cardinality(S) -> S] : \A i, j \in 1..Cardinality(S) : i # j => f[i] # f[j]
                                      IN [i \in 1..Cardinality(S) |-> <<q[i][Len(q[i])], fs[q[i]].k, 1>>])
Expect(e) == IF e.op = "readdir" /\ Exists(Target(P1(e.a))) THEN R("ok", Listing(Target(P1(e.a)).p)) ELSE Unit
Apply(e, h, k) == Do(e, IF e.op = "createdir" THEN 493 ELSE 420, Expect(e)) /\ hist' = Append(h, e) /\ n' = k
\* the setup is one of the histories, replayed call by call
Begin == n = 0 /\ \E i \in 1..Len(Setups) : n' = 100 + i /\ hist' = <<C("new", <<0>>)>> /\ UNCHANGED fvars
Setup == n > 100 /\ LET i == n % 100 s == Setups[i] k == Len(hist) IN
         IF k <= Len(s) THEN Apply(s[k], hist, n) ELSE n' = 1 /\ UNCHANGED <<fvars, hist>>
Call == n \in 1..Depth /\ \E e \in Calls : Apply(e, hist, n + 1)
MCSpec == MCInit /\ [][Begin \/ Setup \/ Call]_mcv
Emit == IF n' = Depth + 1 THEN PrintT("SCRIPT " \o ToJson(hist')) ELSE TRUE
OnTree == n = 0 \/ Tree
Errs == [][(res' = Err /\ n' # 0 /\ n' < 100) => fs' = fs]_mcv
View == IF n > 100 THEN <<fs, hist, n>> ELSE <<fs, n>>
=============================================================================
