------------------------------ MODULE MC_Trans ------------------------------
(* Every function on every pair of a grid of values: special values, around one,*)
(* powers of two and ten, the ends of the exponent range, the thresholds of      *)
(* overflow; with the laws that tie the functions to each other.                 *)
EXTENDS Trans, TLC, Json
CONSTANTS Types, N
VARIABLES hist, y, i, x0
mcv == <<tvars, hist, y, i, x0>>
D(n, e) == LET z == Z(n) IN DNorm(z[1], z[2], e)
One1(t) == DAdd(VOne, D(1, 1 - P(t)))
Below(t) == DAdd(VOne, D(-1, 0 - P(t)))
Specials == {VZero(0), VZero(1), Inf(0), Inf(1), NaN}
Grid(t) ==
  Specials
  \cup {D(k, 0) : k \in {-3, -2, -1, 1, 2, 3, 10, 88, 89, 100, 127, 128}} \cup {D(k, -1) : k \in {-1, 1, 3, 5}}
  \cup {D(k, -3) : k \in 1..N}
  \cup {One1(t), Below(t), D(1, Lo(t)), D(1, Hi(t) - 1), D(-1, Hi(t) - 1), D(1000, 0), D(1, P(t)), D(1, -30)}
  \cup (IF t = 1 THEN {D(709, 0), D(710, 0), D(-745, 0), D(-746, 0), D(1024, 0), D(-1075, 0), D(-1021, 0)}
        ELSE {D(-103, 0), D(-104, 0), D(-150, 0), D(-149, 0)})
C(op, a) == [op |-> op, a |-> a]
One == <<C("exp", <<>>), C("exp2", <<>>), C("ln", <<>>), C("log2", <<>>), C("log10", <<>>)>>
Two == <<C("log", VLog(y)), C("powf", VLog(y))>>
Plan == IF i = 0 THEN <<>> ELSE (IF y = x0 THEN One ELSE <<>>) \o Two
MCInit == ty = 0 /\ x = VZero(0) /\ res = Just(VZero(0)) /\ hist = <<>> /\ y = VZero(0) /\ i = 0 /\ x0 = VZero(0)
Pick == /\ i = 0
        /\ \E t \in Types : \E v \in Grid(t) : x0' = v /\ ty' = t /\ x' = v /\ res' = Just(VZero(0))
              /\ hist' = <<C("new", <<t>> \o VLog(v))>> /\ y' \in Grid(t)
        /\ i' = 1
Step == /\ i > 0 /\ i <= Len(Plan)
        /\ Do(Plan[i]) /\ hist' = Append(hist, Plan[i]) /\ i' = i + 1 /\ UNCHANGED <<y, x0>>
MCNext == Pick \/ Step
MCSpec == MCInit /\ [][MCNext]_mcv
View == <<ty, x0, y, i>>
Emit == (i' > Len(Plan) /\ i > 0) => PrintT("SCRIPT " \o ToJson(hist'))
\* laws, to within 2^(40 - FX) relative to the numbers involved
Close(a, b) == CmpN(AbsI(SubI(a, b))[2], Pow2N(40)) <= 0
Ord(v) == Finite(v) /\ ~IsZero(v)
\* exp undoes ln, on the mantissas: exp(ln v) = v
Inverse == (i = 1 /\ y = x0 /\ Ord(x) /\ Pos(x)) =>
  LET e == ExpOf(LnOf(x)) IN Close(e[1], FOf(<<0, x[2], x[3] - e[2]>>))
\* ln of a product is the sum of the lns
Product == (i = 1 /\ Ord(x) /\ Ord(y) /\ Pos(x) /\ Pos(y)) => Close(LnOf(DMul(x, y)), AddI(LnOf(x), LnOf(y)))
\* exp of a sum is the product of the exps
Sum == (i = 1 /\ Ord(x) /\ Ord(y) /\ ~Far(x) /\ ~Far(y)) =>
  LET a == ExpOf(FOf(x))  b == ExpOf(FOf(y))  c == ExpOf(AddI(FOf(x), FOf(y)))
      p == FMul(a[1], b[1])  k == c[2] - a[2] - b[2]
  IN  Close(IF k >= 0 THEN FloorShr(p, k) ELSE Big(p[1], ShlN(p[2], 0 - k)), c[1])
\* both are increasing
Increasing == (i = 1 /\ Ord(x) /\ Ord(y) /\ Pos(x) /\ Pos(y) /\ CmpD(x, y) < 0) =>
  /\ CmpI(LnOf(x), LnOf(y)) < 0
\* ln 2 lies where 2^3 < e^3 and the classical bounds 0.693147180559 < ln 2 < 0.69314718056 put it
Known == CmpI(LN2, FOver(FOver(Big(0, ShlN(HornerN(<<54, 57, 51, 49, 52, 55, 49, 56, 48, 53, 53, 57>>, 1, <<>>), FX)), 1000000), 1000000)) > 0
         /\ CmpI(LN2, FOver(FOver(Big(0, ShlN(HornerN(<<54, 57, 51, 49, 52, 55, 49, 56, 48, 53, 54, 48>>, 1, <<>>), FX)), 1000000), 1000000)) < 0
\* an outcome accepts the nearest value of the type and not one a hundred units away
Sharp == (i > 1 /\ res.k = "near" /\ ~res.wide /\ Top(res.v) <= Hi(ty) /\ Top(res.v) > Lo(ty) + P(ty)) =>
  LET u == Top(res.v) - P(ty)
      n == FloorShr(Big(0, ShlN(res.v[2], 0)), 0) IN
  LET f == IF res.v[3] >= u THEN <<0, res.v[2], res.v[3]>> ELSE LET z == ShrN(res.v[2], u - res.v[3]) IN DNorm(0, z, u) IN
  LET g == <<res.v[1], f[2], f[3]>> IN
  Accept(g, res) /\ ((CmpN(res.tol, NatN(20)) < 0 /\ Top(DAdd(f, D(100, u))) <= Hi(ty)) => ~Accept(LET q == DAdd(f, D(100, u)) IN <<res.v[1], q[2], q[3]>>, res))
=============================================================================
