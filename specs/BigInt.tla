------------------------------- MODULE BigInt -------------------------------
(* Exact integers of any size.  A magnitude is a little-endian sequence of    *)
(* limbs in 0..Base-1 without a leading (last) zero limb; an integer is        *)
(* <<sign, magnitude>> with sign 1 for negative; zero is <<0, <<>>>>.          *)
(* LB, the bits of a limb, may be overridden to check the operators at a small *)
(* base against TLC's own integers (MC_BigInt).                                *)
EXTENDS Integers, Sequences
LB == 12
Base == 2^LB
RECURSIVE Trim(_)
Trim(q) == IF q = <<>> \/ q[Len(q)] # 0 THEN q ELSE Trim(SubSeq(q, 1, Len(q) - 1))
L(q, i) == IF i <= Len(q) THEN q[i] ELSE 0
RECURSIVE CmpAt(_, _, _)
CmpAt(p, q, i) == IF i = 0 THEN 0 ELSE IF p[i] # q[i] THEN (IF p[i] < q[i] THEN -1 ELSE 1) ELSE CmpAt(p, q, i - 1)
CmpN(p, q) == IF Len(p) # Len(q) THEN (IF Len(p) < Len(q) THEN -1 ELSE 1) ELSE CmpAt(p, q, Len(p))
\* normalise a sequence of (possibly large, possibly negative) columns
RECURSIVE Carry(_, _, _, _)
Carry(cols, i, c, acc) ==
  IF i > Len(cols) /\ c = 0 THEN acc
  ELSE LET t == L(cols, i) + c IN Carry(cols, i + 1, t \div Base, Append(acc, t % Base))
Norm(cols) == Trim(Carry(cols, 1, 0, <<>>))
MaxLen(p, q) == IF Len(p) > Len(q) THEN Len(p) ELSE Len(q)
AddN(p, q) == Norm([i \in 1..MaxLen(p, q) |-> L(p, i) + L(q, i)])
SubN(p, q) == Norm([i \in 1..MaxLen(p, q) |-> L(p, i) - L(q, i)])        \* p >= q
MulSmall(p, m) == Norm([i \in 1..Len(p) |-> p[i] * m])                    \* 0 <= m < Base
RECURSIVE ColSum(_, _, _, _, _)
ColSum(p, q, k, i, hi) == IF i > hi THEN 0 ELSE p[i] * q[k - i] + ColSum(p, q, k, i + 1, hi)
MulN(p, q) ==
  IF p = <<>> \/ q = <<>> THEN <<>>
  ELSE Norm([k \in 1..(Len(p) + Len(q) - 1) |->
         LET lo == IF k + 1 > Len(q) THEN k + 1 - Len(q) ELSE 1
             hi == IF k < Len(p) THEN k ELSE Len(p)
         IN  ColSum(p, q, k + 1, lo, hi)])
RECURSIVE Digit(_, _, _, _)
Digit(r, q, lo, hi) ==
  IF lo = hi THEN lo
  ELSE LET m == (lo + hi + 1) \div 2 IN IF CmpN(MulSmall(q, m), r) <= 0 THEN Digit(r, q, m, hi) ELSE Digit(r, q, lo, m - 1)
\* long division, from the top limb down: <<quotient, remainder>>
RECURSIVE DivAt(_, _, _, _, _)
DivAt(p, q, i, quo, r) ==
  IF i = 0 THEN <<Trim(quo), r>>
  ELSE LET r1 == Trim(<<p[i]>> \o r)
           n  == Len(q)
           top == IF Len(r1) = n THEN r1[n] ELSE r1[n + 1] * Base + r1[n]
           hi == top \div q[n]
           d  == IF CmpN(r1, q) < 0 THEN 0
                 ELSE Digit(r1, q, top \div (q[n] + 1), IF hi < Base THEN hi ELSE Base - 1)
       IN  DivAt(p, q, i - 1, <<d>> \o quo, IF d = 0 THEN r1 ELSE SubN(r1, MulSmall(q, d)))
DivN(p, q) == DivAt(p, q, Len(p), <<>>, <<>>)
RECURSIVE NatN(_)
NatN(n) == IF n = 0 THEN <<>> ELSE <<n % Base>> \o NatN(n \div Base)
Pow2N(n) == [i \in 1..(n \div LB + 1) |-> IF i = n \div LB + 1 THEN 2^(n % LB) ELSE 0]
\* modulo 2^n
LowN(p, n) == Trim([i \in 1..(IF Len(p) < n \div LB + 1 THEN Len(p) ELSE n \div LB + 1) |->
                      IF i = n \div LB + 1 THEN p[i] % 2^(n % LB) ELSE p[i]])
\* divided by 2^n
ShrN(p, n) == LET k == n \div LB  b == n % LB IN
  IF k >= Len(p) THEN <<>>
  ELSE Trim([i \in 1..(Len(p) - k) |-> (p[i + k] \div 2^b) + (L(p, i + k + 1) % 2^b) * 2^(LB - b)])
ShlN(p, n) == IF p = <<>> THEN <<>> ELSE [i \in 1..(n \div LB) |-> 0] \o MulSmall(p, 2^(n % LB))
\* small natural value of p, which must be small
SmallN(p) == L(p, 1) + Base * L(p, 2)
\* --------------------------------------------------------------- integers
Zero == <<0, <<>>>>
Big(sg, m) == IF m = <<>> THEN Zero ELSE <<sg, m>>
Z(n) == IF n < 0 THEN Big(1, NatN(0 - n)) ELSE Big(0, NatN(n))
IsNeg(x) == x[1] = 1
NegI(x) == Big(1 - x[1], x[2])
AbsI(x) == Big(0, x[2])
AddI(x, y) == IF x[1] = y[1] THEN Big(x[1], AddN(x[2], y[2]))
              ELSE IF CmpN(x[2], y[2]) >= 0 THEN Big(x[1], SubN(x[2], y[2])) ELSE Big(y[1], SubN(y[2], x[2]))
SubI(x, y) == AddI(x, NegI(y))
MulI(x, y) == Big((x[1] + y[1]) % 2, MulN(x[2], y[2]))
CmpI(x, y) == IF x[1] # y[1] THEN (IF IsNeg(x) THEN -1 ELSE 1)
              ELSE IF IsNeg(x) THEN CmpN(y[2], x[2]) ELSE CmpN(x[2], y[2])
QuoI(x, y) == Big((x[1] + y[1]) % 2, DivN(x[2], y[2])[1])        \* toward zero
RemI(x, y) == Big(x[1], DivN(x[2], y[2])[2])                      \* signed like x
Pow2(n) == <<0, Pow2N(n)>>
\* x divided by 2^n, toward minus infinity
FloorShr(x, n) == IF ~IsNeg(x) THEN Big(0, ShrN(x[2], n))
                  ELSE NegI(Big(0, AddN(ShrN(SubN(x[2], NatN(1)), n), NatN(1))))
\* ------------------------------------------------------------ fixed width
MinI(w, sg) == IF sg THEN NegI(Pow2(w - 1)) ELSE Zero
MaxI(w, sg) == SubI(Pow2(IF sg THEN w - 1 ELSE w), Z(1))
InRange(x, w, sg) == CmpI(x, MinI(w, sg)) >= 0 /\ CmpI(x, MaxI(w, sg)) <= 0
Wrap(x, w, sg) ==
  LET m == LowN(x[2], w)
      u == IF IsNeg(x) /\ m # <<>> THEN SubN(Pow2N(w), m) ELSE m
  IN  IF sg /\ CmpN(u, Pow2N(w - 1)) >= 0 THEN Big(1, SubN(Pow2N(w), u)) ELSE Big(0, u)
Clamp(x, w, sg) == IF CmpI(x, MinI(w, sg)) < 0 THEN MinI(w, sg) ELSE IF CmpI(x, MaxI(w, sg)) > 0 THEN MaxI(w, sg) ELSE x
\* x^n if it fits in w bits or so, <<>> if it certainly does not
RECURSIVE PowAt(_, _, _, _)
PowAt(x, n, w, acc) == IF n = 0 THEN acc
                       ELSE IF Len(acc[2]) > w \div LB + 2 THEN <<>>
                       ELSE PowAt(x, n - 1, w, MulI(acc, x))
PowI(x, n, w) == IF Len(x[2]) = 0 \/ x[2] = <<1>>        \* 0, 1, -1
                 THEN (IF n = 0 THEN Z(1) ELSE IF x = Zero THEN Zero ELSE IF x[1] = 1 /\ n % 2 = 1 THEN x ELSE Z(1))
                 ELSE PowAt(x, n, w, Z(1))
\* ------------------------------------------------------------------- text
IsDigit(c) == c >= 48 /\ c <= 57
RECURSIVE HornerN(_, _, _)
HornerN(t, i, acc) == IF i > Len(t) THEN acc
  ELSE HornerN(t, i + 1, Norm(IF acc = <<>> THEN <<t[i] - 48>> ELSE [j \in 1..Len(acc) |-> acc[j] * 10 + (IF j = 1 THEN t[i] - 48 ELSE 0)]))
\* t is the canonical decimal text of x
IsText(t, x) ==
  LET d == IF IsNeg(x) THEN Tail(t) ELSE t IN
  /\ t # <<>> /\ (IsNeg(x) => t[1] = 45) /\ d # <<>>
  /\ \A i \in 1..Len(d) : IsDigit(d[i])
  /\ Len(d) > 1 => d[1] # 48
  /\ HornerN(d, 1, <<>>) = x[2]
\* a number in a log: sign, then W limbs
W == 11
Num(a, off) == Big(a[off], Trim(SubSeq(a, off + 1, off + W)))
Log12(x) == <<x[1]>> \o [i \in 1..W |-> L(x[2], i)]
=============================================================================
