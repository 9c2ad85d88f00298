------------------------------- MODULE Float -------------------------------
(* C28: one register of a float type; rounding, fractional part and arithmetic  *)
(* on it.  Rounding functions and integer powers are specified when their       *)
(* exact result is a value of the type; sums, differences, products, quotients  *)
(* and square roots always: the value nearest to the exact result.              *)
(* The sign of a zero is not specified.                                         *)
EXTENDS SeqOps, Ieee
VARIABLES ty, x, res, lax
gvars == <<ty, x, res, lax>>
Fits(v) == Repr(v, P(ty), Lo(ty), Hi(ty))
Init == ty = 0 /\ x = VZero(0) /\ res = VZero(0) /\ lax = FALSE
\* a result (lax: not specified)
Give(v) == UNCHANGED <<ty, x>> /\ res' = v /\ lax' = FALSE
\* an exact result, specified for finite registers when it is a value of the type
GiveD(v) == UNCHANGED <<ty, x>> /\ (IF Finite(x) /\ v # <<>> /\ Fits(v) THEN res' = v /\ lax' = FALSE ELSE res' = VZero(0) /\ lax' = TRUE)
\* the register shows w afterwards, which must be v
Set(v, w) == UNCHANGED ty /\ lax' = FALSE /\ res' = VZero(0) /\ x' = IF Same(v, w) THEN w ELSE v
Do(e) ==
  LET a == e.a
      y == IF Len(a) > 1 THEN VNum(a, 1) ELSE VOne
      w == VNum(e.s[1], 1)
      d == Exact(x)
      op == e.op IN
  CASE op = "new"   -> ty' = a[1] /\ x' = VNum(a, 2) /\ res' = VZero(0) /\ lax' = FALSE
    [] op = "set"   -> UNCHANGED ty /\ x' = y /\ res' = VZero(0) /\ lax' = FALSE
    [] op = "floor" -> GiveD(DFloor(d))
    [] op = "ceil"  -> GiveD(DCeil(d))
    [] op = "round" -> GiveD(DRound(d))
    [] op = "trunc" -> GiveD(DTrunc(d))
    [] op = "frac"  -> GiveD(DFrac(d))
    [] op = "abs"   -> Give(IF IsNaN(x) THEN NaN ELSE <<0, x[2], x[3]>>)
    [] op = "sqrt"  -> Give(VSqrt(ty, x))
    [] op = "add"   -> Give(VAdd(ty, x, y))
    [] op = "sub"   -> Give(VSub(ty, x, y))
    [] op = "mul"   -> Give(VMul(ty, x, y))
    [] op = "div"   -> Give(VDiv(ty, x, y))
    [] op = "addassign" -> Set(VAdd(ty, x, y), w)
    [] op = "subassign" -> Set(VSub(ty, x, y), w)
    [] op = "mulassign" -> Set(VMul(ty, x, y), w)
    [] op = "divassign" -> Set(VDiv(ty, x, y), w)
    [] op = "powi"  -> GiveD(DPow(d, a[1]))
ObsOf(v) == <<VLog(v)>>
=============================================================================
