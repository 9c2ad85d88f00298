------------------------------ MODULE MC_Float ------------------------------
(* Every operation on every pair of a grid of values: around integers and       *)
(* halves, at the ends of the exponent range and of the precision, special.     *)
EXTENDS Float, TLC, Json
CONSTANTS Types, N
VARIABLES hist, y, i, x0
mcv == <<gvars, hist, y, i, x0>>
C1(op, a) == [op |-> op, a |-> a]
D(n, e) == LET z == Z(n) v == DNorm(z[1], z[2], e) IN IF v = DZero THEN VZero(0) ELSE v
\* k quarter steps around zero; near the top of the precision; extremes
Grid(t) ==
  LET big == Pow2N(P(t)) IN
  {D(k, -2) : k \in (0 - N)..N}
  \cup {DNorm(sg, SubN(big, NatN(k)), e) : sg \in {0, 1}, k \in {1, 3}, e \in {0, -1, -2, 0 - P(t), Hi(t) - P(t), 0 - P(t) - 1}}
  \cup {D(1, Lo(t)), D(3, Lo(t)), D(-1, Lo(t)), D(1, Hi(t) - 1), D(1, P(t)), D(1, P(t) - 1), D(5, -40), D(49, 0), D(9, -4)}
  \cup {VZero(1), Inf(0), Inf(1), NaN, D(3, Hi(t) - 2), D(1, Lo(t) + P(t) - 1), DNorm(0, SubN(Pow2N(P(t) - 1), <<1>>), Lo(t)), DNorm(0, AddN(big, <<2>>), 0)}
Y(op) == <<C1(op, VLog(y))>>
Back == <<C1("set", VLog(x0))>>
One == <<C1("floor", <<>>), C1("ceil", <<>>), C1("round", <<>>), C1("trunc", <<>>), C1("frac", <<>>), C1("abs", <<>>), C1("sqrt", <<>>)>>
       \o [k \in 1..8 |-> C1("powi", <<(<<0, 1, 2, 3, -1, -2, 7, 20>>)[k]>>)]
Two == Y("add") \o Y("sub") \o Y("mul") \o Y("div") \o Y("addassign") \o Back \o Y("subassign") \o Back \o Y("mulassign") \o Back \o Y("divassign") \o Back
Plan == IF i = 0 THEN <<>> ELSE (IF y = x0 THEN One ELSE <<>>) \o Two
MCInit == Init /\ hist = <<>> /\ y = VZero(0) /\ i = 0 /\ x0 = VZero(0)
Pick == /\ i = 0
        /\ \E t \in Types : \E v \in Grid(t) : x0' = v /\ ty' = t /\ x' = v /\ res' = VZero(0) /\ lax' = FALSE
              /\ hist' = <<C1("new", <<t>> \o VLog(v))>> /\ y' \in Grid(t)
        /\ i' = 1
Step == /\ i > 0 /\ i <= Len(Plan)
        /\ LET c == Plan[i] IN Do([op |-> c.op, a |-> c.a, s |-> <<VLog(VZero(0))>>])
        /\ hist' = Append(hist, Plan[i]) /\ i' = i + 1 /\ UNCHANGED <<y, x0>>
MCNext == Pick \/ Step
MCSpec == MCInit /\ [][MCNext]_mcv
View == <<ty, x0, y, i>>
Emit == (i' > Len(Plan) /\ i > 0) => PrintT("SCRIPT " \o ToJson(hist'))
Ord(v) == Finite(v) /\ ~IsZero(v)
\* laws of the exact operations
Laws == (i = 1 /\ y = x0 /\ Finite(x)) =>
  LET d == Exact(x) IN
  /\ Fits(d) /\ CmpD(DFloor(d), d) <= 0 /\ CmpD(d, DCeil(d)) <= 0
  /\ CmpD(DAdd(DFloor(d), DOne), d) > 0
  /\ (d[3] < 0 => DAdd(DTrunc(d), DFrac(d)) = d) /\ CmpMag(DFrac(d), DOne) < 0
  /\ LET far == DAdd(DAbs(d), DNeg(DAbs(DRound(d)))) IN (d[3] < 0 /\ d[3] > -150 => CmpMag(far, Half) <= 0)
  /\ CmpMag(DTrunc(d), d) <= 0
Ordered == (i = 1 /\ Finite(x) /\ Finite(y)) =>
  LET d == Exact(x)  f == Exact(y) IN CmpD(d, f) = 0 - CmpD(f, d) /\ ((CmpD(d, f) = 0) = (d = f))
\* the values of the type next to r, a finite one; the smallest above and the largest below
Unit1(r) == IF IsZero(r) THEN D(1, Lo(ty)) ELSE <<0, <<1>>, (IF Top(r) > Lo(ty) + P(ty) THEN Top(r) ELSE Lo(ty) + P(ty)) - P(ty)>>
\* no value of the type is nearer to the exact number ex than r
Nearest(r, ex) ==
  IF IsInf(r) THEN r[1] = ex[1] /\ CmpMag(ex, DNorm(0, SubN(Pow2N(P(ty) + 1), <<1>>), Hi(ty) - P(ty) - 1)) >= 0
  ELSE LET d == Exact(r)  far == DAbs(DAdd(ex, DNeg(d))) IN
       /\ Fits(d)
       /\ CmpMag(far, DMul(Half, Unit1(r))) <= 0
       /\ (~IsZero(r) /\ r[2] = <<1>> => CmpMag(far, DMul(Half, Unit1(r))) <= 0)
       \* a tie goes to the even one
       /\ (far = DMul(Half, Unit1(r)) => (IsZero(r) \/ d[3] > Unit1(r)[3] \/ d[2] = <<1>>))
Rounded == (i = 1 /\ Ord(x) /\ Ord(y)) =>
  /\ (~TooFar(x, y) => LET s == DAdd(x, y) IN IF s = DZero THEN IsZero(VAdd(ty, x, y)) ELSE Nearest(VAdd(ty, x, y), s))
  /\ (Top(DMul(x, y)) > Lo(ty) - 150 => Nearest(VMul(ty, x, y), DMul(x, y)))
  /\ VAdd(ty, x, y) = VAdd(ty, y, x) /\ VMul(ty, x, y) = VMul(ty, y, x) /\ (VSub(ty, x, y) = VNeg(VSub(ty, y, x)) \/ IsZero(VSub(ty, x, y)))
  \* a quotient lies between those with the exact product one half unit away
  /\ LET q == VDiv(ty, x, y) IN
     (Ord(q) => LET h == DMul(Half, Unit1(q))
                    ax == DAbs(x)  ay == DAbs(y)  aq == DAbs(q) IN
                (q[3] - h[3] < 200 => CmpMag(DMul(DAdd(aq, h), ay), ax) >= 0 /\ CmpMag(DMul(DAdd(aq, DNeg(h)), ay), ax) <= 0))
  /\ (y = x0 /\ Pos(x) => LET r == VSqrt(ty, x)  h == DMul(Half, Unit1(r))  lo == DAdd(r, DNeg(h))  hi == DAdd(r, h) IN
                 CmpMag(DMul(lo, lo), x) <= 0 /\ CmpMag(DMul(hi, hi), x) >= 0)
=============================================================================
