------------------------------- MODULE MC_Cplx -------------------------------
(* Every operation on every pair of a grid of complex numbers.  Checked here:   *)
(* the rounded textbook product is a product, the product of a quotient by the  *)
(* divisor is the dividend, and results one part in a thousand off are neither.  *)
EXTENDS Cplx, TLC, Json
CONSTANTS Types, N
VARIABLES hist, y
mcv == <<cvars, hist, y>>
C(op, a) == [op |-> op, a |-> a]
DD(n, e) == LET k == Z(n) v == DNorm(k[1], k[2], e) IN IF v = DZero THEN VZero(0) ELSE v
Part(t) == {DD(k, 0) : k \in (0 - N)..N} \cup {DD(3, -2), DD(1, 12), DD(-1, -9), DNorm(0, SubN(Pow2N(P(t)), <<1>>), 0 - P(t)), DNorm(1, SubN(Pow2N(P(t)), NatN(3)), 1 - P(t))}
Ends(t) == {<<DD(1, Hi(t) - 1), DD(-1, Lo(t))>>, <<Inf(0), DD(1, 0)>>, <<NaN, DD(2, 0)>>, <<DD(1, 0), Inf(1)>>, <<VZero(1), VZero(0)>>,
            <<DD(1, Hi(t) - 2), DD(1, Hi(t) - 2)>>, <<DD(1, Lo(t)), DD(3, Lo(t))>>}
Grid(t) == (Part(t) \X Part(t)) \cup Ends(t)
Some1(t) == {v \in Grid(t) : v \in Ends(t) \/ (v[1][3] + v[2][3] + 7 * v[1][1] + BitLen(v[1][2]) + 3 * BitLen(v[2][2])) % 5 = 0}
Y(op) == C(op, CLog(y))
Plan(v, w) == <<C("new", <<ty>> \o CLog(v))>> \o [k \in 1..4 |-> C((<<"add", "sub", "mul", "div">>)[k], CLog(w))]
  \o <<C("addassign", CLog(w)), C("set", CLog(v)), C("subassign", CLog(w)), C("set", CLog(v)), C("mulassign", CLog(w)), C("set", CLog(v)), C("divassign", CLog(w)), C("clone", <<>>), C("asref", <<>>)>>
MCInit == Init /\ hist = <<>> /\ y = CZero
Pick == hist = <<>> /\ y = CZero /\ ty' \in Types /\ z' \in Grid(ty') /\ y' \in Some1(ty') /\ res' = CZero /\ hist' = <<C("new", <<ty'>> \o CLog(z'))>>
Go == Len(hist) = 1 /\ hist' = Plan(z, y) /\ UNCHANGED <<cvars, y>>
MCSpec == MCInit /\ [][Pick \/ Go]_mcv
View == <<ty, z, y, Len(hist)>>
Emit == Len(hist') > 1 => PrintT("SCRIPT " \o ToJson(hist'))
Mul(t, v, w) == <<VSub(t, VMul(t, v[1], w[1]), VMul(t, v[2], w[2])), VAdd(t, VMul(t, v[1], w[2]), VMul(t, v[2], w[1]))>>
Off(x) == RoundD(ty, DMul(x, DAdd(DOne, <<0, <<1>>, -10>>)))
Laws == (Len(hist) = 1 /\ Scaled(z) /\ Scaled(y)) =>
  LET m == Mul(ty, z, y) IN
  /\ Right("mul", m, y) /\ Right("mul", m, y) = IsProduct(m, y, z)
  /\ (~IsZero(m[1]) /\ IsZero(z[2]) => ~Right("mul", <<Off(m[1]), m[2]>>, y))
  /\ Right("add", <<VAdd(ty, z[1], y[1]), VAdd(ty, z[2], y[2])>>, y)
\* dividing an exact product by a factor gives the other
Back == (Len(hist) = 1 /\ Scaled(z) /\ Scaled(y) /\ ~CSame(y, CZero)) =>
  LET m == Mul(ty, z, y) IN
  /\ (Mid(m[1]) /\ Mid(m[2]) /\ DSub(DMul(Real(z), Real(y)), DMul(Imag(z), Imag(y))) = Exact(m[1]) /\ DAdd(DMul(Real(z), Imag(y)), DMul(Imag(z), Real(y))) = Exact(m[2]))
     => IsQuotient(z, m, y) /\ (~IsZero(z[1]) => ~IsQuotient(<<Off(z[1]), z[2]>>, m, y) \/ CmpMag(z[1], z[2]) < 0)
=============================================================================
