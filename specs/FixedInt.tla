------------------------------ MODULE FixedInt ------------------------------
(* C14, C15, C16: one register holding a value of an integer type, and every  *)
(* operation of the type applied to it and an operand.  Values are exact       *)
(* integers (BigInt), so that what an overflow mode has to deliver is stated   *)
(* from the exact result.                                                      *)
EXTENDS SeqOps, BigInt
VARIABLES ty, x, res, lax
fvars == <<ty, x, res, lax>>
\* types: 0-4 I8 I16 I32 I64 ISize, 5-9 U8 U16 U32 U64 USize, 10 I128, 11 U128, 12 Byte, 13 Char
Wd(t) == CASE t \in {0, 5, 12} -> 8 [] t \in {1, 6} -> 16 [] t \in {2, 7, 13} -> 32 [] t \in {3, 4, 8, 9} -> 64 [] OTHER -> 128
Sg(t) == t \in 0..4 \cup {10, 13}
Fit(y) == InRange(y, Wd(ty), Sg(ty))
Wr(y) == Wrap(y, Wd(ty), Sg(ty))
Cl(y) == Clamp(y, Wd(ty), Sg(ty))
Init == ty = 0 /\ x = Zero /\ res = Unit /\ lax = FALSE
\* results
ValR(y) == R("val", Log12(y))
OptV(y, ok) == R("opt", IF ok THEN Log12(y) ELSE <<>>)
Give(r) == res' = r /\ lax' = FALSE /\ UNCHANGED <<ty, x>>
\* the result is specified only when the exact value is representable
Whenever(ok, r) == res' = r /\ lax' = ~ok /\ UNCHANGED <<ty, x>>
Set(y) == x' = y /\ res' = Unit /\ lax' = FALSE /\ UNCHANGED ty
MinusOne == Z(-1)
\* the exact quotient fits unless it is that of the minimum by minus one
NoQuo(y) == y = Zero \/ (y = MinusOne /\ ~Fit(NegI(x)))
Exact(op, y) == CASE op = "add" -> AddI(x, y) [] op = "sub" -> SubI(x, y) [] op = "mul" -> MulI(x, y)
                  [] op = "div" -> QuoI(x, y) [] op = "rem" -> RemI(x, y)
\* 8-bit types, in TLC's own integers (rows over all operands)
AbsS(n) == IF n < 0 THEN 0 - n ELSE n
QuoS(a, b) == LET q == AbsS(a) \div AbsS(b) IN IF (a < 0) # (b < 0) THEN 0 - q ELSE q
LoS(sg) == IF sg THEN -128 ELSE 0
HiS(sg) == IF sg THEN 127 ELSE 255
WrS(n, sg) == LET m == n % 256 IN IF sg /\ m >= 128 THEN m - 256 ELSE m
ClS(n, sg) == IF n < LoS(sg) THEN LoS(sg) ELSE IF n > HiS(sg) THEN HiS(sg) ELSE n
FitS(n, sg) == n >= LoS(sg) /\ n <= HiS(sg)
Absent == 999
Any == 997          \* in what is expected: not specified
ExS(op, a, b) == CASE op = 0 -> a + b [] op = 1 -> a - b [] op = 2 -> a * b [] op = 3 -> QuoS(a, b) [] OTHER -> a - b * QuoS(a, b)
\* row operations: 10*mode + exact operation; modes 0 checked 1 wrapping 2 saturating 3 plain 4 assigning
RowS(o, sg, a, b) ==
  LET mode == o \div 10 op == o % 10 IN
  CASE o = 50 -> AbsS(a - b)
    [] o = 60 -> IF b >= 8 THEN 0 ELSE WrS(a * 2^b, sg)
    [] o = 61 -> IF b >= 8 THEN (IF a < 0 THEN -1 ELSE 0) ELSE a \div 2^b
    [] op \in {3, 4} /\ b = 0 -> IF mode = 0 THEN Absent ELSE Any
    [] OTHER -> LET n == ExS(op, a, b) IN
       CASE mode = 0 -> IF FitS(IF op = 4 THEN QuoS(a, b) ELSE n, sg) THEN n ELSE Absent
         [] mode = 2 -> ClS(n, sg)
         [] OTHER -> WrS(n, sg)
RowY(sg, o) == IF o \in {60, 61} THEN [i \in 1..(HiS(sg) + 1) |-> i - 1] ELSE [i \in 1..256 |-> LoS(sg) + i - 1]
Row(o, sg, a) == LET ys == RowY(sg, o) IN [i \in 1..Len(ys) |-> RowS(o, sg, a, ys[i])]
SameRow(v, want) == Len(v) = Len(want) /\ \A i \in 1..Len(want) : want[i] = Any \/ v[i] = want[i]
Do(e) ==
  LET a == e.a
      y == Num(a, 1)
      op == e.op IN
  CASE op = "new"   -> ty' = a[1] /\ x' = Num(a, 2) /\ res' = Unit /\ lax' = FALSE
    [] op = "set"   -> Set(y)
    [] op = "min"   -> Give(ValR(MinI(Wd(ty), Sg(ty))))
    [] op = "max"   -> Give(ValR(MaxI(Wd(ty), Sg(ty))))
    [] op \in {"cadd", "csub", "cmul"} ->
         LET n == Exact(IF op = "cadd" THEN "add" ELSE IF op = "csub" THEN "sub" ELSE "mul", y) IN Give(OptV(n, Fit(n)))
    [] op = "cdiv"  -> IF NoQuo(y) THEN Give(None) ELSE Give(OptV(QuoI(x, y), TRUE))
    [] op = "crem"  -> IF NoQuo(y) THEN Give(None) ELSE Give(OptV(RemI(x, y), TRUE))
    [] op \in {"wadd", "add"} -> Give(ValR(Wr(AddI(x, y))))
    [] op \in {"wsub", "sub"} -> Give(ValR(Wr(SubI(x, y))))
    [] op \in {"wmul", "mul"} -> Give(ValR(Wr(MulI(x, y))))
    \* dividing by zero: a panic where the property says so (128 bits); no call elsewhere
    [] op \in {"wdiv", "div"} -> IF y = Zero THEN Give(Panic) ELSE Give(ValR(Wr(QuoI(x, y))))
    [] op = "rem"   -> IF y = Zero THEN Give(Panic) ELSE Give(ValR(RemI(x, y)))
    [] op = "sadd"  -> Give(ValR(Cl(AddI(x, y))))
    [] op = "ssub"  -> Give(ValR(Cl(SubI(x, y))))
    [] op = "smul"  -> Give(ValR(Cl(MulI(x, y))))
    [] op = "sdiv"  -> Give(ValR(Cl(QuoI(x, y))))
    [] op = "addassign" -> Set(Wr(AddI(x, y)))
    [] op = "subassign" -> Set(Wr(SubI(x, y)))
    [] op = "mulassign" -> Set(Wr(MulI(x, y)))
    [] op = "divassign" -> IF y = Zero THEN Give(Panic) ELSE Set(Wr(QuoI(x, y)))
    [] op = "remassign" -> IF y = Zero THEN Give(Panic) ELSE Set(RemI(x, y))
    [] op = "abs"   -> Whenever(Fit(AbsI(x)), ValR(AbsI(x)))
    [] op = "neg"   -> Whenever(Fit(NegI(x)), ValR(NegI(x)))
    [] op = "absdiff" -> Give(ValR(AbsI(SubI(x, y))))
    [] op = "ispos" -> Give(Bool(~IsNeg(x) /\ x # Zero))
    [] op = "isneg" -> Give(Bool(IsNeg(x)))
    [] op = "pow"   -> LET n == PowI(x, a[1], Wd(ty)) IN IF n # <<>> /\ Fit(n) THEN Give(ValR(n)) ELSE Whenever(FALSE, Unit)
    [] op = "cmp"   -> Give(Int1(CmpI(x, y)))
    [] op = "eq"    -> Give(Bool(x = y))
    [] op = "shl"   -> Give(ValR(IF CmpI(y, Z(Wd(ty))) >= 0 THEN Zero ELSE Wr(<<x[1], ShlN(x[2], SmallN(y[2]))>>)))
    [] op = "shr"   -> Give(ValR(IF CmpI(y, Z(Wd(ty))) >= 0 THEN (IF IsNeg(x) THEN MinusOne ELSE Zero) ELSE FloorShr(x, SmallN(y[2]))))
    \* conversions replace the register
    [] op \in {"fromi", "fromu"} -> x' = y /\ res' = ValR(y) /\ lax' = FALSE /\ UNCHANGED ty
    [] op = "text"  -> IsText(e.v, x) /\ Give(SeqR(e.v))
    \* a[1]: the row operation, a[2]: the left operand, over every right operand
    [] op = "row"   -> SameRow(e.v, Row(a[1], Sg(ty), a[2])) /\ Give(SeqR(e.v))
ObsOf(xx) == <<Log12(xx)>>
=============================================================================
