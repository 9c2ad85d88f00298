------------------------------- MODULE MC_Str -------------------------------
(* Every short string over a telling alphabet with every short pattern; every  *)
(* short sequence of 16-bit units around the surrogates.                        *)
EXTENDS Str, TLC, Json
CONSTANTS Alphabet, MaxLen, MaxPat, Units, MaxUnits
VARIABLES hist
mcv == <<svars, hist>>
C(op, a) == [op |-> op, a |-> a]
Strings(n) == UNION {[1..k -> Alphabet] : k \in 0..n}
U16s == UNION {[1..k -> Units] : k \in 0..MaxUnits}
Pats == Strings(MaxPat)
Nullary == <<C("chars", <<>>), C("bytes", <<>>), C("len", <<>>), C("isempty", <<>>), C("trim", <<>>), C("lower", <<>>), C("upper", <<>>),
             C("repeat", <<0>>), C("repeat", <<1>>), C("repeat", <<3>>), C("pop", <<>>), C("pop", <<>>), C("push", <<8364>>)>>
WithPat(p) == <<C("contains", p), C("find", p), C("add", p)>>
              \o (IF p = <<>> THEN <<>> ELSE <<C("split", p), C("replace", <<Len(p)>> \o p), C("replace", <<Len(p)>> \o p \o p \o <<120>>), C("replace", <<Len(p)>> \o p \o <<120>>)>>)
              \o <<C("addassign", p), C("len", <<>>)>>
MCInit == Init /\ hist = <<>>
Plain == \E q \in Strings(MaxLen) : s' = q /\ hist' = <<C("new", q)>> \o Nullary
Search == \E q \in Strings(MaxLen), p \in Pats : s' = q /\ hist' = <<C("new", q)>> \o WithPat(p)
Wide == \E u \in U16s : s' = <<>> /\ hist' = <<C("new", <<>>), C("fromutf16", u), C("bytes", <<>>)>>
Raw == \E q \in UNION {[1..k -> {97, 1470, 65533, 65279, 2000255, 2000192}] : k \in 0..MaxUnits} : s' = <<>> /\ hist' = <<C("new", <<>>), C("fromutf8", q), C("bytes", <<>>), C("len", <<>>), C("trim", <<>>)>>
Pick == hist = <<>> /\ (Plain \/ Search \/ Wide \/ Raw) /\ res' = Unit
MCSpec == MCInit /\ [][Pick]_mcv
Emit == PrintT("SCRIPT " \o ToJson(hist'))
\* laws
Pat == IF hist # <<>> /\ Len(hist) > 4 /\ hist[5].op = "split" THEN hist[5].a ELSE <<>>
Restores == Pat # <<>> => /\ Join(Split(s, Pat), Pat) = s
                          /\ \A i \in 1..Len(Split(s, Pat)) : First(Split(s, Pat)[i], Pat, 1) = 0
                          /\ (First(s, Pat, 1) = 0) = (Len(Split(s, Pat)) = 1)
Idem == TrimWs(TrimWs(s)) = TrimWs(s) /\ Lower(Upper(s)) = Lower(s)
Codes == Well16(Enc16(s)) /\ Dec16(Enc16(s)) = s
Units16 == (hist # <<>> /\ hist[2].op = "fromutf16" /\ Well16(hist[2].a)) => Enc16(Dec16(hist[2].a)) = hist[2].a
=============================================================================
