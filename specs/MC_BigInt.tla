----------------------------- MODULE MC_BigInt -----------------------------
(* The operators of BigInt, at a small base, agree with TLC's own integers.   *)
EXTENDS BigInt, TLC
LB2 == 2
N == 40
Ints == (0 - N)..N
ToInt(x) == LET m == L(x[2], 1) + Base * (L(x[2], 2) + Base * (L(x[2], 3) + Base * (L(x[2], 4) + Base * (L(x[2], 5) + Base * (L(x[2], 6) + Base * (L(x[2], 7) + Base * L(x[2], 8)))))))
            IN IF IsNeg(x) THEN 0 - m ELSE m
AbsN(n) == IF n < 0 THEN 0 - n ELSE n
QuoT(a, b) == LET q == AbsN(a) \div AbsN(b) IN IF (a < 0) # (b < 0) THEN 0 - q ELSE q
WrapT(n, w, sg) == LET m == n % 2^w IN IF sg /\ m >= 2^(w - 1) THEN m - 2^w ELSE m
Canon(x) == x = Big(x[1], Trim(x[2])) /\ \A i \in 1..Len(x[2]) : x[2][i] \in 0..(Base - 1)
Same(x, n) == Canon(x) /\ ToInt(x) = n
RECURSIVE PowT(_, _)
PowT(a, n) == IF n = 0 THEN 1 ELSE a * PowT(a, n - 1)
ASSUME \A a \in Ints : Same(Z(a), a) /\ Same(NegI(Z(a)), 0 - a) /\ Same(AbsI(Z(a)), AbsN(a))
ASSUME \A a \in Ints, b \in Ints : LET x == Z(a) y == Z(b) IN
  /\ Same(AddI(x, y), a + b) /\ Same(SubI(x, y), a - b) /\ Same(MulI(x, y), a * b)
  /\ CmpI(x, y) = (IF a < b THEN -1 ELSE IF a > b THEN 1 ELSE 0)
  /\ (b # 0 => Same(QuoI(x, y), QuoT(a, b)) /\ Same(RemI(x, y), a - b * QuoT(a, b)))
ASSUME \A a \in (0 - 300)..300, w \in 2..7, sg \in BOOLEAN : LET x == Z(a) IN
  /\ Same(Wrap(x, w, sg), WrapT(a, w, sg))
  /\ InRange(x, w, sg) = (WrapT(a, w, sg) = a)
  /\ (InRange(x, w, sg) => Clamp(x, w, sg) = x)
  /\ InRange(Clamp(x, w, sg), w, sg)
  /\ Same(FloorShr(x, w), a \div 2^w)
  /\ Same(Big(0, ShlN(AbsI(x)[2], w)), AbsN(a) * 2^w)
ASSUME \A a \in -5..5, n \in 0..5 : Same(PowI(Z(a), n, 16), PowT(a, n))
ASSUME IsText(<<45, 57, 48>>, Z(-90)) /\ IsText(<<48>>, Zero) /\ ~IsText(<<48, 48>>, Zero) /\ ~IsText(<<45, 48>>, Zero)
   /\ IsText(<<56, 57>>, Z(89)) /\ ~IsText(<<48, 56, 57>>, Z(89)) /\ ~IsText(<<45, 56, 57>>, Z(89)) /\ ~IsText(<<>>, Zero)
VARIABLE dummy
Init == dummy = 0
Next == UNCHANGED dummy
Spec == Init /\ [][Next]_dummy
=============================================================================
