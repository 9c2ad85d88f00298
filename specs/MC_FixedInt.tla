----------------------------- MODULE MC_FixedInt -----------------------------
(* For every type, every pair of boundary operands: all operations in turn.    *)
(* Checked here: results stay in range and the modes are consistent with one   *)
(* another.  The histories are replayed on the real code.                      *)
EXTENDS FixedInt, TLC, Json
CONSTANTS Types, D, Mode          \* Mode: "arith", "basic" (bytes and chars), "wide" (128 bits), "shift"
VARIABLES hist, y, i, x0, plan
mcv == <<fvars, hist, y, i, x0, plan>>
Near(c) == {AddI(c, Z(d)) : d \in (0 - D)..D}
Cand(t) == LET w == Wd(t) IN UNION {Near(c) : c \in {Zero, MinI(w, Sg(t)), MaxI(w, Sg(t)), Pow2(w \div 2), NegI(Pow2(w \div 2 - 1)), Pow2(w \div 2 - 1), Z(1), Z(-1), Z(10)}}
           \cup (IF w = 128 THEN UNION {Near(c) : c \in {Pow2(64), NegI(Pow2(64)), Pow2(63)}} ELSE {})
B(t) == {v \in Cand(t) : InRange(v, Wd(t), Sg(t))}
C(op, a) == [op |-> op, a |-> a, v |-> <<>>]
YO(op, yy) == <<C(op, Log12(yy))>>
Back == <<C("set", Log12(x0))>>
Amt == LET w == Wd(ty) IN
       {Z(n) : n \in {0, 1, 2, 7, w \div 2, w \div 2 + 1, w - 2, w - 1, w, w + 1, w + w \div 2, 100} \cup (IF w = 128 THEN {63, 64, 65, 130} ELSE {})}
       \cup (IF w >= 64 THEN {Pow2(32), Pow2(40), MaxI(w, Sg(ty))} ELSE {MaxI(w, Sg(ty))}) \cup (IF w = 128 THEN {Pow2(64), AddI(Pow2(64), Z(3)), Pow2(100)} ELSE {})
PlanOf(yy) ==
  IF Mode = "shift" THEN YO("shl", yy) \o YO("shr", yy)
  ELSE
  (IF Mode = "arith" THEN YO("cadd", yy) \o YO("csub", yy) \o YO("cmul", yy) \o YO("cdiv", yy) \o YO("crem", yy) \o YO("wadd", yy) \o YO("wsub", yy) \o YO("wmul", yy)
     \o YO("sadd", yy) \o YO("ssub", yy) \o YO("smul", yy) \o YO("absdiff", yy)
     \o (IF yy # Zero THEN YO("wdiv", yy) \o YO("sdiv", yy) ELSE <<>>)
     \o (IF yy = x0 THEN <<C("min", <<>>), C("max", <<>>)>> \o [k \in 1..9 |-> C("pow", <<(<<0, 1, 2, 3, 5, 7, 8, 15, 63>>)[k]>>)] ELSE <<>>) ELSE <<>>)
  \o YO("add", yy) \o YO("sub", yy) \o YO("mul", yy) \o YO("addassign", yy) \o Back \o YO("subassign", yy) \o Back \o YO("mulassign", yy) \o Back
  \o (IF yy # Zero THEN YO("div", yy) \o YO("divassign", yy) \o Back \o (IF Mode = "basic" THEN <<>> ELSE YO("rem", yy) \o YO("remassign", yy) \o Back) ELSE <<>>)
  \o (IF Mode \in {"basic", "wide"} THEN YO("cmp", yy) \o YO("eq", yy) ELSE <<>>)
  \o (IF yy = x0 /\ Sg(ty) /\ Mode # "basic" THEN <<C("abs", <<>>), C("neg", <<>>), C("ispos", <<>>), C("isneg", <<>>)>> ELSE <<>>)
  \o (IF Mode = "wide" /\ yy = Zero THEN YO("div", yy) ELSE <<>>)       \* panics: last
MCInit == Init /\ plan = <<>> /\ hist = <<>> /\ y = Zero /\ i = 0 /\ x0 = Zero
Cl1(e) == [op |-> e.op, a |-> e.a]
Pick == /\ i = 0
        /\ \E t \in Types : \E v \in B(t) :
             /\ x0' = v
             /\ LET e == C("new", <<t>> \o Log12(v)) IN Do(e) /\ hist' = <<Cl1(e)>>
        /\ y' = Zero /\ i' = -1 /\ plan' = <<>>
\* the operand: of the same type; a shift amount
Operand == /\ i = -1
           /\ y' \in (IF Mode = "shift" THEN {v \in Amt : Fit(v)} ELSE B(ty)) /\ i' = 1 /\ plan' = PlanOf(y')
           \* the minimum by minus one has no 128-bit quotient the property speaks of
           /\ (Mode = "wide" => ~(y' = MinusOne /\ ~Fit(NegI(x0))))
           /\ UNCHANGED <<fvars, hist, x0>>
Step == /\ i > 0 /\ i <= Len(plan)
        /\ Do(plan[i]) /\ hist' = Append(hist, Cl1(plan[i])) /\ i' = i + 1 /\ UNCHANGED <<y, x0, plan>>
MCNext == Pick \/ Operand \/ Step
MCSpec == MCInit /\ [][MCNext]_mcv
View == <<ty, x0, y, i>>
Emit == (i' > 0 /\ i' = i + 1 /\ i > Len(plan) - 1) => PrintT("SCRIPT " \o ToJson(
   IF hist'[Len(hist')].op = "div" THEN hist' ELSE hist' \o <<[op |-> "text", a |-> <<>>]>>))
InType == Fit(x)
ResIn == (res.k \in {"val", "opt"} /\ res.v # <<>> /\ ~lax) => (Fit(Num(res.v, 1)) \/ (i > 1 /\ plan[i - 1].op = "absdiff"))
\* a checked result, where there is one, is the wrapping and the saturating one
Modes == (i = 1 /\ Mode = "arith") => \A op \in {"add", "sub", "mul"} : LET n == Exact(op, y) IN
           /\ (Fit(n) => Wr(n) = n /\ Cl(n) = n) /\ (~Fit(n) => Wr(n) # Cl(n) \/ op = "mul")
Division == (i = 1 /\ y # Zero) => /\ AddI(MulI(QuoI(x, y), y), RemI(x, y)) = x
                                   /\ CmpI(AbsI(RemI(x, y)), AbsI(y)) < 0
                                   /\ RemI(x, y) = Zero \/ RemI(x, y)[1] = x[1]
\* at 8 bits the exact integers agree with TLC's own
ToS(n) == LET m == L(n[2], 1) + Base * L(n[2], 2) IN IF IsNeg(n) THEN 0 - m ELSE m
Small == (i = 1 /\ Wd(ty) = 8 /\ Mode = "arith") => \A o \in 0..2 :
   LET n == Exact(<<"add", "sub", "mul">>[o + 1], y)  sg == Sg(ty) a == ToS(x) b == ToS(y) IN
   /\ RowS(10 + o, sg, a, b) = ToS(Wr(n)) /\ RowS(20 + o, sg, a, b) = ToS(Cl(n))
   /\ RowS(o, sg, a, b) = (IF Fit(n) THEN ToS(n) ELSE Absent)
   /\ (y # Zero => RowS(33, sg, a, b) = ToS(Wr(QuoI(x, y))) /\ RowS(34, sg, a, b) = ToS(RemI(x, y)))
   /\ RowS(3, sg, a, b) = (IF NoQuo(y) THEN Absent ELSE ToS(QuoI(x, y)))
   /\ RowS(4, sg, a, b) = (IF NoQuo(y) THEN Absent ELSE ToS(RemI(x, y)))
=============================================================================
