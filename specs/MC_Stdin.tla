------------------------------ MODULE MC_Stdin -----------------------------
(* The fine-grained design -- feeds, reads and services interleave freely --    *)
(* and, as scripts, every order of feeds and reads up to Depth.                 *)
EXTENDS Stdin, Json
CONSTANTS Depth
VARIABLES hist, fed, took
mcv == <<svars, hist, fed, took>>
C(op, a) == [op |-> op, a |-> a]
Feeds == {<<97>>, <<10>>, <<98, 10, 32>>, <<10, 99, 10>>, <<13, 13, 10>>, <<1000>>}
MCInit == Init /\ hist = <<>> /\ fed = <<>> /\ took = <<>>
Log1(e) == hist' = Append(hist, e)
More == Len(hist) <= Depth
New == hist = <<>> /\ Log1(C("new", <<0>>)) /\ UNCHANGED <<svars, fed, took>>
Feed == More /\ hist # <<>> /\ ~eof /\ \E f \in Feeds :
          /\ Len(rest) + Len(f) < 8 /\ (IF f[1] = 1000 /\ rest # <<>> THEN rest[Len(rest)] # 1000 ELSE TRUE)
          /\ rest' = rest \o f /\ fed' = fed \o f /\ UNCHANGED <<eof, wait, last, held, res, took>> /\ Log1(C("feed", f))
End == More /\ hist # <<>> /\ ~eof /\ eof' = TRUE /\ UNCHANGED <<rest, wait, last, held, res, fed, took>> /\ Log1(C("eof", <<0>>))
Read == More /\ hist # <<>> /\ \E c \in Callers, h \in 1..2 :
          /\ wait[c] = 0 /\ (\A d \in Callers : wait[d] \in {0, h}) /\ (IF c = 1 THEN TRUE ELSE wait[c - 1] # 0)
          /\ wait' = [wait EXCEPT ![c] = h] /\ UNCHANGED <<rest, eof, last, held, res, fed, took>> /\ Log1(C("read", <<c, h>>))
Hold == More /\ hist # <<>> /\ held = {} /\ (\A c \in Callers : wait[c] # 1) /\ held' = {1} /\ UNCHANGED <<rest, eof, wait, last, res, fed, took>> /\ Log1(C("hold", <<1>>))
Drop == More /\ held # {} /\ held' = {} /\ UNCHANGED <<rest, eof, wait, last, res, fed, took>> /\ Log1(C("drop", <<1>>))
Get == \E c \in Callers : LET s == Split1(rest, eof) IN
          s # <<>> /\ Serve(c, s[1]) /\ UNCHANGED <<hist, fed>>
          /\ took' = took \o s[1] \o (IF EndOf(rest, 1) > 0 THEN <<NL>> ELSE <<>>)
\* scripts: services first, so that each order of calls is told once
Can == Reading(wait, held) # {} /\ Split1(rest, eof) # <<>>
Calls == New \/ Feed \/ End \/ Read \/ Hold \/ Drop
FreeSpec  == MCInit /\ [][Calls \/ Get]_mcv
MCSpec    == MCInit /\ [][(~Can /\ Calls) \/ Get]_mcv
Emit == IF Len(hist') = Depth + 1 /\ hist' # hist THEN PrintT("SCRIPT " \o ToJson(hist')) ELSE TRUE
\* nothing is lost, duplicated or reordered
Conserved == took \o rest = fed
View == <<svars, fed, took, Len(hist)>>
=============================================================================
