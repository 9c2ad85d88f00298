-------------------------------- MODULE Ieee --------------------------------
(* Values of the binary floating-point types: <<sign, m, e>> is (-1)^sign*m*2^e *)
(* with m an odd magnitude; zero keeps its sign; e = 9999 is an infinity and    *)
(* e = 9998 not a number.  Type 0 has 24 significant bits, type 1 has 53.        *)
EXTENDS Dyadic
P(t) == IF t = 0 THEN 24 ELSE 53
Lo(t) == IF t = 0 THEN -149 ELSE -1074
Hi(t) == IF t = 0 THEN 128 ELSE 1024
Inf(sg) == <<sg, <<1>>, 9999>>
NaN == <<0, <<1>>, 9998>>
VZero(sg) == <<sg, <<>>, 0>>
IsNaN(v) == v[3] = 9998
IsInf(v) == v[3] = 9999
IsZero(v) == v[2] = <<>>
Finite(v) == ~IsNaN(v) /\ ~IsInf(v)
Pos(v) == v[1] = 0
VOne == <<0, <<1>>, 0>>
VLog(v) == <<v[1], v[3]>> \o [i \in 1..WD |-> L(v[2], i)]
VNum(a, off) == <<a[off], Trim(SubSeq(a, off + 2, off + 1 + WD)), a[off + 1]>>
\* as an exact number
Exact(v) == IF IsZero(v) THEN DZero ELSE v
\* the value of the type nearest to the magnitude m * 2^e, plus a positive amount below 2^e when st;
\* the one with an even last bit of two; infinite beyond the largest
RoundTo(t, sg, m, e, st) ==
  LET top == BitLen(m) + e
      u == (IF top > Lo(t) + P(t) THEN top ELSE Lo(t) + P(t)) - P(t) IN
  IF e >= u /\ ~st THEN (IF top > Hi(t) THEN Inf(sg) ELSE DNorm(sg, m, e))
  ELSE LET q == ShrN(m, u - e)
           c == CmpN(LowN(m, u - e), Pow2N(u - e - 1))
           up == c > 0 \/ (c = 0 /\ (st \/ (q # <<>> /\ q[1] % 2 = 1)))
           r == IF up THEN AddN(q, <<1>>) ELSE q IN
       IF r = <<>> THEN VZero(sg)
       ELSE IF BitLen(r) + u > Hi(t) THEN Inf(sg)
       ELSE DNorm(sg, r, u)
RoundD(t, x) == RoundTo(t, x[1], x[2], x[3], FALSE)         \* an exact number other than zero
VNeg(v) == IF IsNaN(v) THEN v ELSE <<1 - v[1], v[2], v[3]>>
Xor(v, w) == (v[1] + w[1]) % 2
VAdd(t, v, w) ==
  IF IsNaN(v) \/ IsNaN(w) THEN NaN
  ELSE IF IsInf(v) THEN (IF IsInf(w) /\ v[1] # w[1] THEN NaN ELSE v)
  ELSE IF IsInf(w) THEN w
  ELSE IF IsZero(v) THEN (IF IsZero(w) THEN VZero(IF v[1] = 1 /\ w[1] = 1 THEN 1 ELSE 0) ELSE w)
  ELSE IF IsZero(w) THEN v
  ELSE IF TooFar(v, w) THEN LET b == IF Top(v) > Top(w) THEN v ELSE w
                                m == ShlN(b[2], 100) IN
                            RoundTo(t, b[1], IF v[1] = w[1] THEN m ELSE SubN(m, <<1>>), b[3] - 100, TRUE)
  ELSE LET s == DAdd(v, w) IN IF s = DZero THEN VZero(0) ELSE RoundD(t, s)
VSub(t, v, w) == VAdd(t, v, VNeg(w))
VMul(t, v, w) ==
  IF IsNaN(v) \/ IsNaN(w) THEN NaN
  ELSE IF IsInf(v) \/ IsInf(w) THEN (IF IsZero(v) \/ IsZero(w) THEN NaN ELSE Inf(Xor(v, w)))
  ELSE IF IsZero(v) \/ IsZero(w) THEN VZero(Xor(v, w))
  ELSE RoundD(t, DMul(v, w))
VDiv(t, v, w) ==
  IF IsNaN(v) \/ IsNaN(w) THEN NaN
  ELSE IF IsInf(v) THEN (IF IsInf(w) THEN NaN ELSE Inf(Xor(v, w)))
  ELSE IF IsInf(w) THEN VZero(Xor(v, w))
  ELSE IF IsZero(w) THEN (IF IsZero(v) THEN NaN ELSE Inf(Xor(v, w)))
  ELSE IF IsZero(v) THEN VZero(Xor(v, w))
  ELSE LET d == DivN(ShlN(v[2], 120), w[2]) IN RoundTo(t, Xor(v, w), d[1], v[3] - 120 - w[3], d[2] # <<>>)
\* the largest r with r*r <= m
RECURSIVE NewtonN(_, _)
NewtonN(m, r) == LET s == ShrN(AddN(r, DivN(m, r)[1]), 1) IN IF CmpN(s, r) >= 0 THEN r ELSE NewtonN(m, s)
SqrtN(m) == NewtonN(m, Pow2N((BitLen(m) + 1) \div 2))
VSqrt(t, v) ==
  IF IsNaN(v) \/ IsZero(v) THEN v
  ELSE IF ~Pos(v) THEN NaN
  ELSE IF IsInf(v) THEN v
  ELSE LET k == 120 + AbsN1(v[3] % 2)
           m == ShlN(v[2], k)
           r == SqrtN(m) IN
       RoundTo(t, 0, r, (v[3] - k) \div 2, MulN(r, r) # m)
\* equal values: zeros of either sign are
Same(v, w) == v = w \/ (IsZero(v) /\ IsZero(w))
=============================================================================
