------------------------------- MODULE Trans -------------------------------
(* C29: exponentials, logarithms and powers of a register of a float type.     *)
(* A value is <<sign, m, e>>: (-1)^sign * m * 2^e, zero keeping its sign;       *)
(* e = 9999 is an infinity, e = 9998 not a number.                              *)
(* A call's outcome is specified as one of the special values, or as a number   *)
(* near an exact real (res.near), within res.tol half-units of its last place.  *)
EXTENDS SeqOps, Ieee, Real
VARIABLES ty, x, res
tvars == <<ty, x, res>>
\* outcomes
Just(v) == [k |-> "is", v |-> v, tol |-> <<>>, wide |-> FALSE]
NearT(v, tol) == [k |-> "near", v |-> v, tol |-> tol, wide |-> FALSE]      \* v: a binary fraction, not zero; tol: a magnitude
Near(v, n) == NearT(v, NatN(n))
NearAbs(v, n) == [k |-> "near", v |-> v, tol |-> NatN(n), wide |-> TRUE]     \* within tol half-units of the larger of |v| and 1
\* 0 up to sign
AnyZero == [k |-> "zero", v |-> VZero(0), tol |-> <<>>, wide |-> FALSE]
AnyAtAll == [k |-> "any", v |-> NaN, tol |-> <<>>, wide |-> FALSE]
NotFinite == [k |-> "notfinite", v |-> NaN, tol |-> <<>>, wide |-> FALSE]
\* --------------------------------------------------------- exponentials
\* e^w for a real w known to FX bits; sg: the sign of the result
\* an argument this large over- or underflows every type
Huge(sg) == Just(Inf(sg))
Tiny(sg) == [k |-> "tiny", v |-> VZero(sg), tol |-> <<>>, wide |-> FALSE]      \* zero or the least subnormal
ExpRes(w, sg, tol) ==
  IF CmpI(w, FInt(1200)) > 0 THEN Huge(sg)
  ELSE IF CmpI(w, FInt(-1200)) < 0 THEN Tiny(sg)
  ELSE LET e == ExpOf(w)  d == DOf(e[1], e[2]) IN NearT(<<sg, d[2], d[3]>>, tol)
Far(v) == Top(v) > 12                \* |v| >= 2^12
ExpV(v) ==
  IF IsNaN(v) THEN Just(NaN)
  ELSE IF IsInf(v) THEN Just(IF Pos(v) THEN Inf(0) ELSE VZero(0))
  ELSE IF IsZero(v) THEN Just(VOne)
  ELSE IF Far(v) THEN (IF Pos(v) THEN Huge(0) ELSE Tiny(0))
  ELSE ExpRes(FOf(v), 0, NatN(4))
Exp2V(v) ==
  IF IsNaN(v) THEN Just(NaN)
  ELSE IF IsInf(v) THEN Just(IF Pos(v) THEN Inf(0) ELSE VZero(0))
  ELSE IF IsZero(v) THEN Just(VOne)
  ELSE IF Far(v) THEN (IF Pos(v) THEN Huge(0) ELSE Tiny(0))
  ELSE IF v[3] >= 0 THEN LET n == IntVal(Big(v[1], ShlN(v[2], v[3]))) IN Near(<<0, <<1>>, n>>, 1)
  ELSE ExpRes(FMul(FOf(v), LN2), 0, NatN(4))
\* ------------------------------------------------------------ logarithms
LogRes(l, tol) == IF l = Zero THEN AnyZero ELSE Near(DOf(l, 0), tol)
\* log2 and log10 of 64-bit floats are computed from a logarithm near that of 1/2: absolute accuracy
LogAbs(l, tol) == IF l = Zero THEN AnyZero ELSE IF ty = 1 THEN NearAbs(DOf(l, 0), tol) ELSE Near(DOf(l, 0), tol)
LogDom(v) ==                    \* special arguments common to all logarithms, <<>> if none
  IF IsNaN(v) THEN <<Just(NaN)>>
  ELSE IF IsZero(v) THEN <<Just(Inf(1))>>
  ELSE IF ~Pos(v) THEN <<Just(NaN)>>
  ELSE IF IsInf(v) THEN <<Just(Inf(0))>>
  ELSE <<>>
LnV(v) == LET d == LogDom(v) IN IF d # <<>> THEN d[1] ELSE LogRes(LnOf(v), 4)
Log2V(v) == LET d == LogDom(v) IN
  IF d # <<>> THEN d[1]
  ELSE IF v[2] = <<1>> THEN (IF v[3] = 0 THEN AnyZero ELSE Near(LET z == Z(v[3]) IN DNorm(z[1], z[2], 0), 1))
  ELSE LogAbs(FDiv(LnOf(v), LN2), 6)
Log10V(v) == LET d == LogDom(v) IN IF d # <<>> THEN d[1] ELSE LogAbs(FDiv(LnOf(v), LN10), 8)
\* to base b: a quotient of logarithms
Num1(v) == Finite(v) /\ ~IsZero(v) /\ Pos(v)
LogV(v, b) ==
  IF IsNaN(v) \/ IsNaN(b) THEN Just(NaN)
  ELSE IF (~IsZero(v) /\ ~Pos(v)) \/ (~IsZero(b) /\ ~Pos(b)) THEN Just(NaN)
  ELSE IF Num1(v) /\ Num1(b) THEN
         (IF b = VOne THEN NotFinite ELSE LogRes(FDiv(LnOf(v), LnOf(b)), 12))
  ELSE IF Num1(b) /\ b # VOne
       THEN LET sg == IF IsZero(v) THEN 1 ELSE 0 IN Just(Inf(IF CmpMag(b, VOne) > 0 THEN sg ELSE 1 - sg))
  ELSE IF Num1(v) /\ v # VOne THEN AnyZero            \* base zero or infinite
  ELSE AnyAtAll
\* ---------------------------------------------------------------- powers
IsInt(v) == v[3] >= 0                 \* of a finite value other than zero
OddInt(v) == v[3] = 0
\* the units of error a power may have grow with its exponent and with the logarithm of the result
IntMag(d) == IF d = DZero THEN <<>> ELSE IF d[3] >= 0 THEN ShlN(d[2], d[3]) ELSE ShrN(d[2], 0 - d[3])
PowTol(y, w) == LET s == MulSmall(AddN(NatN(2), AddN(IntMag(y), ShrN(w[2], FX))), 4) IN
                IF ty = 1 THEN s ELSE AddN(NatN(4), ShrN(s, 26))
PowV(v, y) ==
  IF Finite(y) /\ IsZero(y) THEN Just(VOne)
  ELSE IF v = VOne THEN Just(VOne)
  ELSE IF IsNaN(v) \/ IsNaN(y) THEN Just(NaN)
  ELSE IF IsInf(y) THEN
         LET c == IF IsInf(v) THEN 1 ELSE CmpMag(IF IsZero(v) THEN DZero ELSE v, VOne) IN
         (IF c = 0 THEN Just(VOne) ELSE IF (c > 0) = Pos(y) THEN Just(Inf(0)) ELSE Just(VZero(0)))
  ELSE LET odd == IsInt(y) /\ OddInt(y)
           sg == IF odd THEN v[1] ELSE 0 IN
  IF IsZero(v) THEN (IF Pos(y) THEN Just(VZero(sg)) ELSE Just(Inf(sg)))
  ELSE IF IsInf(v) THEN (IF Pos(y) THEN Just(Inf(sg)) ELSE Just(VZero(sg)))
  ELSE IF ~Pos(v) /\ ~IsInt(y) THEN Just(NaN)
  ELSE LET a == <<0, v[2], v[3]>> IN
       IF a = VOne THEN Near(<<sg, <<1>>, 0>>, 1)
       ELSE LET l == LnOf(a)
                ld == DOf(l, 0)
                p == DMul(y, ld) IN
            IF Top(p) > 12 THEN (IF Pos(p) THEN Huge(sg) ELSE Tiny(sg))
            ELSE IF ty = 1 /\ Top(y) > 45 THEN AnyAtAll
            ELSE LET w == FOf(p) IN ExpRes(w, sg, PowTol(y, w))
\* ------------------------------------------------------------ acceptance
\* got is within tol half-units of the last place of the real v (or of 1 if larger, when wide)
Scale(r) == LET big == r.wide /\ Top(r.v) < 1
            IN  Max2(IF big THEN 1 ELSE Top(r.v), Lo(ty) + P(ty)) - P(ty) - 1
Within(got, r) ==
  LET d == DAdd(got, DNeg(r.v)) IN
  CmpMag(d, DNorm(0, r.tol, Scale(r))) <= 0
Largest == <<0, SubN(Pow2N(P(ty)), NatN(1)), Hi(ty) - P(ty)>>
Accept(got, r) ==
  CASE r.k = "is"   -> got = r.v
    [] r.k = "any"  -> TRUE
    [] r.k = "zero" -> Finite(got) /\ IsZero(got)
    [] r.k = "notfinite" -> ~Finite(got)
    [] r.k = "tiny" -> Finite(got) /\ (IsZero(got) \/ (got[1] = r.v[1] /\ Top(got) <= Lo(ty) + 1))
    [] OTHER ->
       IF IsNaN(got) THEN FALSE
       ELSE IF IsInf(got) THEN got[1] = r.v[1] /\ (IF Top(r.v) > Hi(ty) THEN TRUE ELSE Within(Largest, [r EXCEPT !.v[1] = 0]))
       ELSE IF IsZero(got) THEN Within(DZero, r)
       ELSE Top(r.v) <= Hi(ty) + 1 /\ Top(r.v) - Top(got) < 70 /\ (got[1] = r.v[1] \/ r.wide) /\ Within(got, r)
Do(e) ==
  LET a == e.a
      y == IF Len(a) < 2 THEN VOne ELSE VNum(a, 1)
      op == e.op IN
  CASE op = "new"   -> ty' = a[1] /\ x' = VNum(a, 2) /\ res' = Just(VZero(0))
    [] op = "set"   -> UNCHANGED ty /\ x' = y /\ res' = Just(VZero(0))
    [] op = "exp"   -> UNCHANGED <<ty, x>> /\ res' = ExpV(x)
    [] op = "exp2"  -> UNCHANGED <<ty, x>> /\ res' = Exp2V(x)
    [] op = "ln"    -> UNCHANGED <<ty, x>> /\ res' = LnV(x)
    [] op = "log2"  -> UNCHANGED <<ty, x>> /\ res' = Log2V(x)
    [] op = "log10" -> UNCHANGED <<ty, x>> /\ res' = Log10V(x)
    [] op = "log"   -> UNCHANGED <<ty, x>> /\ res' = LogV(x, y)
    [] op = "powi"  -> UNCHANGED <<ty, x>> /\ res' = PowV(x, LET z == Z(a[1]) IN IF a[1] = 0 THEN VZero(0) ELSE DNorm(z[1], z[2], 0))
    [] op = "powf"  -> UNCHANGED <<ty, x>> /\ res' = PowV(x, y)
=============================================================================
