----------------------------- MODULE FloatText -----------------------------
(* C31: the text of a float or complex value, and the float value of a text.   *)
(* Texts are sequences of bytes.  A numeral is read as an exact decimal number  *)
(* M * 10^k and its value is the float nearest to that (Ieee).                  *)
(* types: 0 F32, 1 F64, 2 Complex64, 3 Complex128                               *)
EXTENDS SeqOps, Ieee
VARIABLES last, res, lax
xvars == <<last, res, lax>>
TName(t) == CASE t = 0 -> <<70, 51, 50>> [] t = 1 -> <<70, 54, 52>>
              [] t = 2 -> <<67, 111, 109, 112, 108, 101, 120, 54, 52>> [] t = 3 -> <<67, 111, 109, 112, 108, 101, 120, 49, 50, 56>>
From(t, i) == SubSeq(t, i, Len(t))
\* the first place of a byte in S, one past the end when there is none; the last, 0 when none
First(t, S) == IF \E i \in 1..Len(t) : t[i] \in S THEN CHOOSE i \in 1..Len(t) : t[i] \in S /\ \A j \in 1..(i - 1) : t[j] \notin S ELSE Len(t) + 1
Final(t, S) == IF \E i \in 1..Len(t) : t[i] \in S THEN CHOOSE i \in 1..Len(t) : t[i] \in S /\ \A j \in (i + 1)..Len(t) : t[j] \notin S ELSE 0
Minus == 45
Plus == 43
Dot == 46
AllDigits(t) == \A i \in 1..Len(t) : IsDigit(t[i])
HasSign(t) == t # <<>> /\ t[1] \in {Plus, Minus}
Bare(t) == IF HasSign(t) THEN Tail(t) ELSE t
SignOf(t) == IF t # <<>> /\ t[1] = Minus THEN 1 ELSE 0
\* a numeral: sign, integer part, fraction, exponent
Mant(b) == SubSeq(b, 1, First(b, {101, 69}) - 1)
Expo(b) == IF First(b, {101, 69}) > Len(b) THEN <<48>> ELSE From(b, First(b, {101, 69}) + 1)
IPart(m) == SubSeq(m, 1, First(m, {Dot}) - 1)
FPart(m) == From(m, First(m, {Dot}) + 1)
IsNumeral(t) ==
  LET b == Bare(t) m == Mant(b) x == Expo(b) IN
  /\ AllDigits(IPart(m)) /\ AllDigits(FPart(m)) /\ IPart(m) \o FPart(m) # <<>>
  /\ Bare(x) # <<>> /\ AllDigits(Bare(x))
\* digit sequences as numbers
RECURSIVE DecN(_, _, _)
RECURSIVE Pow10N(_)
Pow10N(n) == IF n = 0 THEN <<1>> ELSE IF n % 2 = 1 THEN MulSmall(Pow10N(n - 1), 10) ELSE LET h == Pow10N(n \div 2) IN MulN(h, h)
DecN(t, i, j) ==
  IF i > j THEN <<>>
  ELSE IF j - i < 8 THEN HornerN(SubSeq(t, i, j), 1, <<>>)
  ELSE LET h == (i + j) \div 2 IN AddN(MulN(DecN(t, i, h), Pow10N(j - h)), DecN(t, h + 1, j))
RECURSIVE SmallDec(_, _, _)
SmallDec(t, i, acc) == IF i > Len(t) THEN acc ELSE IF acc > 100000 THEN 100000 ELSE SmallDec(t, i + 1, 10 * acc + t[i] - 48)
AllZero(d) == \A i \in 1..Len(d) : d[i] = 48
\* M * 10^k: without the zeros at either end of M
Lead(d) == IF AllZero(d) THEN <<>> ELSE From(d, CHOOSE i \in 1..Len(d) : d[i] # 48 /\ \A j \in 1..(i - 1) : d[j] = 48)
Sig(d) == IF AllZero(d) THEN <<>> ELSE LET l == Lead(d) IN SubSeq(l, 1, CHOOSE i \in 1..Len(l) : l[i] # 48 /\ \A j \in (i + 1)..Len(l) : l[j] = 48)
KOf(t) ==
  LET b == Bare(t) m == Mant(b) x == Expo(b)
      all == IPart(m) \o FPart(m)
      n == SmallDec(Bare(x), 1, 0)
  IN (IF SignOf(x) = 1 THEN 0 - n ELSE n) - Len(FPart(m)) + (Len(Lead(all)) - Len(Sig(all)))
MOf(t) == LET m == Mant(Bare(t)) IN Sig(IPart(m) \o FPart(m))
\* the value of type t nearest to (-1)^sg * M * 10^k
RoundDec(t, sg, m, k) ==
  IF m = <<>> THEN VZero(sg)
  ELSE IF k >= 0 THEN RoundTo(t, sg, MulN(m, Pow10N(k)), 0, FALSE)
  ELSE LET d == Pow10N(0 - k)
           s == (IF BitLen(d) > BitLen(m) THEN BitLen(d) - BitLen(m) ELSE 0) + 70
           q == DivN(ShlN(m, s), d)
       IN RoundTo(t, sg, q[1], 0 - s, q[2] # <<>>)
ValueOf(t, text) ==
  LET m == MOf(text) k == KOf(text) IN
  IF m = <<>> \/ Len(m) + k < -400 THEN VZero(SignOf(text))
  ELSE IF Len(m) + k > 400 THEN Inf(SignOf(text))
  ELSE RoundDec(t, SignOf(text), DecN(m, 1, Len(m)), k)
\* the text of a finite value: a plain decimal that means it and none of whose digits can be spared
Plain(text) ==
  LET b == Bare(text) m == Mant(b) IN
  /\ IsNumeral(text) /\ m = b /\ IPart(m) # <<>> /\ (IPart(m)[1] = 48 => Len(IPart(m)) = 1)
  /\ (First(m, {Dot}) <= Len(m) => FPart(m) # <<>> /\ m[Len(m)] # 48)
Shortest(t, v, text) ==
  LET m == MOf(text) n == Len(m) k == KOf(text) d == DecN(m, 1, n - 1) IN
  n > 1 => RoundDec(t, v[1], d, k + 1) # v /\ RoundDec(t, v[1], AddN(d, <<1>>), k + 1) # v
Means(t, v, text) ==
  CASE IsNaN(v) -> Bare(text) = <<78, 97, 78>>
    [] IsInf(v) -> Bare(text) = <<73, 110, 102>> /\ SignOf(text) = v[1]
    [] OTHER -> Plain(text) /\ Same(ValueOf(t, text), v) /\ SignOf(text) = v[1] /\ (~IsZero(v) => Shortest(t, v, text))
\* a complex value: (real part, imaginary part with its sign, i)
MeansC(t, v, w, text) ==
  LET n == Len(text) b == SubSeq(text, 2, n - 2) i == Final(b, {Plus, Minus}) IN
  /\ n > 4 /\ text[1] = 40 /\ text[n] = 41 /\ text[n - 1] = 105
  /\ i > 1 /\ Means(t, v, SubSeq(b, 1, i - 1)) /\ Means(t, w, From(b, i))
TextIs(a, text) == IF a[1] < 2 THEN Means(a[1], VNum(a, 2), text) ELSE MeansC(a[1] - 2, VNum(a, 2), VNum(a, 2 + WD + 2), text)
\* letters of the other notations (infinities, hexadecimal): not specified
Other(t) == \E i \in 1..Len(t) : t[i] \in {73, 105, 78, 110, 88, 120, 80, 112, 95}
Parse(t) ==
  LET v == ValueOf(1, t) IN
  /\ lax' = Other(t)
  /\ res' = (IF IsNumeral(t) /\ Finite(v) THEN R("flt", VLog(v)) ELSE R("err", <<>>))
Shown(v) == last' = v /\ res' = SeqR(v) /\ lax' = FALSE
Init == last = <<>> /\ res = Unit /\ lax = FALSE
Do(e) ==
  LET a == e.a IN
  CASE e.op = "new" -> last' = <<>> /\ res' = Unit /\ lax' = FALSE
    [] e.op \in {"text", "display"} -> TextIs(a, e.v) /\ Shown(e.v)
    [] e.op = "debug" -> LET n == TName(a[1]) k == Len(n) IN
         /\ Len(e.v) > k + 2 /\ SubSeq(e.v, 1, k + 1) = Append(n, 40) /\ e.v[Len(e.v)] = 41
         /\ TextIs(a, SubSeq(e.v, k + 2, Len(e.v) - 1)) /\ Shown(e.v)
    [] e.op = "parse" -> Parse(a) /\ UNCHANGED last
    \* what was printed last
    [] e.op = "back" -> Parse(last) /\ UNCHANGED last
\* a zero is any zero
Agrees(e, r) == lax' \/ (e.k = r.k /\ (e.v = r.v \/ (r.k = "flt" /\ Len(e.v) = WD + 2 /\ Same(VNum(e.v, 1), VNum(r.v, 1)))))
=============================================================================
