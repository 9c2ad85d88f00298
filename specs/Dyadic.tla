------------------------------- MODULE Dyadic -------------------------------
(* Finite binary floating-point values as exact numbers: <<sign, m, e>> is     *)
(* (-1)^sign * m * 2^e with m an odd magnitude; zero is <<0, <<>>, 0>>.         *)
(* Infinities (comparison only) are <<sign, <<1>>, 9999>>.                      *)
EXTENDS BigInt
DZero == <<0, <<>>, 0>>
RECURSIVE BitsOf(_)
BitsOf(n) == IF n = 0 THEN 0 ELSE 1 + BitsOf(n \div 2)
BitLen(m) == IF m = <<>> THEN 0 ELSE LB * (Len(m) - 1) + BitsOf(m[Len(m)])
RECURSIVE Tz(_)
Tz(n) == IF n % 2 = 1 THEN 0 ELSE 1 + Tz(n \div 2)
RECURSIVE ZeroLimbs(_)
ZeroLimbs(m) == IF m[1] # 0 THEN 0 ELSE 1 + ZeroLimbs(Tail(m))
TrailingZ(m) == LET z == ZeroLimbs(m) IN LB * z + Tz(m[z + 1])
DNorm(sg, m, e) == IF m = <<>> THEN DZero ELSE LET z == TrailingZ(m) IN <<sg, ShrN(m, z), e + z>>
DNeg(x) == IF x = DZero THEN x ELSE <<1 - x[1], x[2], x[3]>>
DAbs(x) == <<0, x[2], x[3]>>
DMul(x, y) == DNorm((x[1] + y[1]) % 2, MulN(x[2], y[2]), x[3] + y[3])
Low(a, b) == IF a < b THEN a ELSE b
\* only for operands whose exponents are not too far apart
DAdd(x, y) ==
  IF x = DZero THEN y ELSE IF y = DZero THEN x
  ELSE LET e == Low(x[3], y[3])
           s == AddI(Big(x[1], ShlN(x[2], x[3] - e)), Big(y[1], ShlN(y[2], y[3] - e)))
       IN  DNorm(s[1], s[2], e)
\* the sum of numbers farther apart has more significant bits than any type
TooFar(x, y) == x # DZero /\ y # DZero /\ (x[3] - y[3] > 200 \/ y[3] - x[3] > 200)
Top(x) == BitLen(x[2]) + x[3]
CmpMag(x, y) ==
  IF x = DZero \/ y = DZero THEN (IF x = y THEN 0 ELSE IF x = DZero THEN -1 ELSE 1)
  ELSE IF Top(x) # Top(y) THEN (IF Top(x) < Top(y) THEN -1 ELSE 1)
  ELSE LET e == Low(x[3], y[3]) IN CmpN(ShlN(x[2], x[3] - e), ShlN(y[2], y[3] - e))
CmpD(x, y) ==
  IF x[1] # y[1] THEN (IF x[1] = 1 THEN -1 ELSE 1)
  ELSE IF x[1] = 1 THEN CmpMag(DAbs(y), DAbs(x)) ELSE CmpMag(x, y)
\* integers around x
IntOf(x, e0) == Big(x[1], ShlN(x[2], x[3]))
DInt(n) == DNorm(n[1], n[2], 0)
DFloor(x) == IF x = DZero \/ x[3] >= 0 THEN x ELSE DInt(FloorShr(Big(x[1], x[2]), 0 - x[3]))
DCeil(x) == DNeg(DFloor(DNeg(x)))
DTrunc(x) == IF x[1] = 1 THEN DCeil(x) ELSE DFloor(x)
DFrac(x) == IF x[3] >= 0 \/ x = DZero THEN DZero
            ELSE LET t == DTrunc(x) IN IF t = DZero THEN x ELSE DAdd(x, DNeg(t))
Half == <<0, <<1>>, -1>>
\* half away from zero: the floor of |x| + 1/2, with x's sign
DRound(x) == IF x[3] >= 0 \/ x = DZero THEN x
             ELSE IF Top(x) < 0 THEN DZero
             ELSE LET r == DFloor(DAdd(DAbs(x), Half)) IN IF x[1] = 1 THEN DNeg(r) ELSE r
\* a type: precision p, least exponent of the last bit lo, magnitudes below 2^hi
Repr(x, p, lo, hi) == x = DZero \/ (BitLen(x[2]) <= p /\ x[3] >= lo /\ Top(x) <= hi)
\* the quotient, if it is a binary fraction at all
Divides(x, y) == RemI(Big(0, x[2]), Big(0, y[2])) = Zero
DQuo(x, y) == IF x = DZero THEN DZero
              ELSE DNorm((x[1] + y[1]) % 2, DivN(x[2], y[2])[1], x[3] - y[3])
\* x^n, <<>> when it has certainly too many bits
RECURSIVE DPowAt(_, _, _)
DPowAt(x, n, acc) == IF n = 0 THEN acc ELSE IF BitLen(acc[2]) > 64 THEN <<>> ELSE DPowAt(x, n - 1, DMul(acc, x))
DOne == <<0, <<1>>, 0>>
Odd(n) == n % 2 = 1
AbsN1(n) == IF n < 0 THEN 0 - n ELSE n
DPow(x, n) ==
  IF n = 0 THEN DOne
  ELSE IF x = DZero THEN (IF n > 0 THEN DZero ELSE <<>>)
  ELSE IF x[2] = <<1>> THEN <<IF x[1] = 1 /\ Odd(AbsN1(n)) THEN 1 ELSE 0, <<1>>, x[3] * n>>
  ELSE IF n < 0 THEN <<>> ELSE DPowAt(x, n, DOne)
\* the square root, <<>> when it is not a binary fraction (m up to 53 bits)
RECURSIVE Isqrt(_, _, _)
Isqrt(m, lo, hi) == IF lo = hi THEN lo ELSE LET k == (lo + hi + 1) \div 2 IN
                    IF CmpN(MulN(NatN(k), NatN(k)), m) <= 0 THEN Isqrt(m, k, hi) ELSE Isqrt(m, lo, k - 1)
DSqrt(x) == IF x = DZero THEN DZero
            ELSE IF x[1] = 1 \/ Odd(AbsN1(x[3])) \/ BitLen(x[2]) > 56 THEN <<>>
            ELSE LET r == Isqrt(x[2], 1, 268435455) IN
                 IF MulN(NatN(r), NatN(r)) = x[2] THEN <<0, NatN(r), x[3] \div 2>> ELSE <<>>
\* in a log: sign, exponent, WD limbs
WD == 5
DNum(a, off) == LET m == Trim(SubSeq(a, off + 2, off + 1 + WD)) IN IF m = <<>> THEN DZero ELSE <<a[off], m, a[off + 1]>>
DLog(x) == <<x[1], x[3]>> \o [i \in 1..WD |-> L(x[2], i)]
=============================================================================
