-------------------------------- MODULE Cplx --------------------------------
(* C32: a register holding a complex number of a type (0: parts of 24            *)
(* significant bits, 1: of 53), and arithmetic on it.  Sums and differences are   *)
(* those of the parts, correctly rounded.  Products are right part by part up to *)
(* rounding and quotients as a whole, for operands whose products stay within    *)
(* the range; exactly, where no rounding is called for.                          *)
EXTENDS SeqOps, Ieee
VARIABLES ty, z, res
cvars == <<ty, z, res>>
Fits(x) == Repr(x, P(ty), Lo(ty), Hi(ty))
CZero == <<VZero(0), VZero(0)>>
CLog(v) == VLog(v[1]) \o VLog(v[2])
CNum(a, off) == <<VNum(a, off), VNum(a, off + WD + 2)>>
CSame(v, w) == Same(v[1], w[1]) /\ Same(v[2], w[2])
Init == ty = 0 /\ z = CZero /\ res = CZero
\* operands whose products neither overflow nor lose bits
Mid(x) == Finite(x) /\ (IsZero(x) \/ (Top(x) < Hi(ty) \div 4 /\ Top(x) > 0 - (Hi(ty) \div 4)))
Scaled(v) == Mid(v[1]) /\ Mid(v[2])
DSub(x, y) == DAdd(x, DNeg(y))
Real(v) == Exact(v[1])
Imag(v) == Exact(v[2])
\* |r - (p + q)| is at most a few roundings of |p| + |q|; nothing when all of them are values of the type
Near(r, p, q) ==
  LET s == DAdd(p, q) far == DAbs(DSub(Exact(r), s)) IN
  /\ Finite(r)
  /\ IF Fits(p) /\ Fits(q) /\ Fits(s) THEN Exact(r) = s
     ELSE CmpMag(far, DMul(<<0, <<1>>, 2 - P(ty)>>, DAdd(DAbs(p), DAbs(q)))) <= 0
IsProduct(r, x, y) ==
  /\ Near(r[1], DMul(Real(x), Real(y)), DNeg(DMul(Imag(x), Imag(y))))
  /\ Near(r[2], DMul(Real(x), Imag(y)), DMul(Imag(x), Real(y)))
Norm1(re, im) == DAdd(DAbs(re), DAbs(im))
PowTwo(x) == IF IsZero(x) THEN FALSE ELSE x[2] = <<1>>
\* r * y is x, up to a few roundings of its size; exactly when only scaled by a power of two
IsQuotient(r, x, y) ==
  /\ Finite(r[1]) /\ Finite(r[2])
  /\ LET re == DSub(DMul(Real(r), Real(y)), DMul(Imag(r), Imag(y)))
         im == DAdd(DMul(Real(r), Imag(y)), DMul(Imag(r), Real(y)))
         far == Norm1(DSub(re, Real(x)), DSub(im, Imag(x))) IN
     IF (IsZero(y[2]) /\ PowTwo(y[1])) \/ (IsZero(y[1]) /\ PowTwo(y[2])) THEN far = DZero
     ELSE CmpMag(far, DMul(<<0, <<1>>, 6 - P(ty)>>, Norm1(Real(x), Imag(x)))) <= 0
\* what r has to be for op on the register and y
Right(op, r, y) ==
  CASE op = "add" -> CSame(r, <<VAdd(ty, z[1], y[1]), VAdd(ty, z[2], y[2])>>)
    [] op = "sub" -> CSame(r, <<VSub(ty, z[1], y[1]), VSub(ty, z[2], y[2])>>)
    [] op = "mul" -> (Scaled(z) /\ Scaled(y)) => IsProduct(r, z, y)
    [] op = "div" -> (Scaled(z) /\ Scaled(y) /\ ~(IsZero(y[1]) /\ IsZero(y[2]))) => IsQuotient(r, z, y)
Plain == {"add", "sub", "mul", "div"}
Base1(op) == CASE op = "addassign" -> "add" [] op = "subassign" -> "sub" [] op = "mulassign" -> "mul" [] op = "divassign" -> "div"
\* e.v, e.s: what the call returned and the register after it (witnesses)
Do(e) ==
  LET a == e.a IN
  CASE e.op = "new" -> ty' = a[1] /\ z' = CNum(a, 2) /\ res' = CZero
    [] e.op = "set" -> z' = CNum(a, 1) /\ res' = CZero /\ UNCHANGED ty
    [] e.op \in Plain -> LET r == CNum(e.v, 1) IN Right(e.op, r, CNum(a, 1)) /\ res' = r /\ UNCHANGED <<ty, z>>
    [] e.op \in {"clone", "asref"} -> LET r == CNum(e.v, 1) IN CSame(r, z) /\ res' = r /\ UNCHANGED <<ty, z>>
    [] OTHER -> LET r == CNum(e.s[1], 1) IN Right(Base1(e.op), r, CNum(a, 1)) /\ z' = r /\ res' = CZero /\ UNCHANGED ty
=============================================================================
