-------------------------------- MODULE Real --------------------------------
(* Real numbers to a stated accuracy.  A fixed-point number is an exact        *)
(* integer counting units of 2^-FX; each operation below is off by at most a    *)
(* few units, so a value is known to about FX - 10 bits behind the point.       *)
(* Exponential and logarithm come from their power series: nothing here is      *)
(* taken from the code or from a table.                                         *)
EXTENDS Dyadic
FX == 156
FOne == Pow2(FX)
FInt(n) == Big(IF n < 0 THEN 1 ELSE 0, ShlN(NatN(IF n < 0 THEN 0 - n ELSE n), FX))
\* floor of a binary fraction (below 2^1100)
FOf(d) == IF d = DZero THEN Zero
          ELSE IF d[3] + FX >= 0 THEN Big(d[1], ShlN(d[2], d[3] + FX)) ELSE FloorShr(Big(d[1], d[2]), 0 - (d[3] + FX))
DOf(f, k) == DNorm(f[1], f[2], k - FX)                 \* f * 2^k as a binary fraction
FMul(a, b) == FloorShr(MulI(a, b), FX)
FDiv(a, b) == QuoI(Big(a[1], ShlN(a[2], FX)), b)
FOver(a, n) == QuoI(a, Z(n))
\* sum of z^(2i+1)/(2i+1) from i = n on, t = z^(2n+1)
RECURSIVE AtanhAt(_, _, _, _)
AtanhAt(t, zz, n, acc) == IF t = Zero \/ t = Z(-1) THEN acc ELSE AtanhAt(FMul(t, zz), zz, n + 1, AddI(acc, FOver(t, 2 * n + 1)))
Atanh(z) == AtanhAt(z, FMul(z, z), 0, Zero)
Twice(a) == AddI(a, a)
LN2 == Twice(Atanh(FOver(FOne, 3)))
\* ln 10 = 3 ln 2 + ln(5/4), and (5/4 - 1)/(5/4 + 1) = 1/9
LN10 == AddI(AddI(LN2, Twice(LN2)), Twice(Atanh(FOver(FOne, 9))))
\* ln of a positive binary fraction: x = y * 2^k with 3/4 <= y < 3/2
LnOf(d) ==
  LET b == BitLen(d[2])
      up == CmpMag(<<0, d[2], 1 - b>>, <<0, <<3>>, -1>>) >= 0
      y == FOf(<<0, d[2], IF up THEN 0 - b ELSE 1 - b>>)
      k == IF up THEN d[3] + b ELSE d[3] + b - 1
      l == Twice(Atanh(FDiv(SubI(y, FOne), AddI(y, FOne))))
  IN  AddI(MulI(Z(k), LN2), l)
\* e^w for a fixed-point w: <<f, k>>, f * 2^k with f between 2/3 and 3/2
RECURSIVE ExpAt(_, _, _, _)
ExpAt(t, r, n, acc) == IF t = Zero \/ t = Z(-1) THEN acc ELSE ExpAt(FOver(FMul(t, r), n + 1), r, n + 1, AddI(acc, t))
FHalf == Pow2(FX - 1)
\* small integer value of an integer below 2^23 in magnitude
IntVal(n) == IF IsNeg(n) THEN 0 - SmallN(n[2]) ELSE SmallN(n[2])
FFloor(a) == IntVal(FloorShr(a, FX))
ExpOf(w) ==
  LET k == FFloor(AddI(FDiv(w, LN2), FHalf))
      r == SubI(w, MulI(Z(k), LN2))
  IN  <<ExpAt(FOne, r, 0, Zero), k>>
=============================================================================
