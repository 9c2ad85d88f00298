---------------------------- MODULE MC_FloatText ----------------------------
(* Parsing: every string up to MaxChars over a telling alphabet; the exact      *)
(* decimal expansions of values, of the midpoints between neighbours and of     *)
(* points just off them.  Printing: a grid of values of every type.             *)
EXTENDS FloatText, TLC, Json
CONSTANTS Alphabet, MaxChars, N
VARIABLES hist, want
mcv == <<xvars, hist, want>>
C(op, a) == [op |-> op, a |-> a]
DD(n, e) == LET z == Z(n) v == DNorm(z[1], z[2], e) IN IF v = DZero THEN VZero(0) ELSE v
TopN(t) == Pow2N(P(t))
Grid(t) ==
  {DD(k, -2) : k \in (0 - N)..N} \cup {DD(k, 0) : k \in {10, 100, 99999, 1000000}}
  \cup {DNorm(sg, SubN(TopN(t), NatN(k)), e) : sg \in {0, 1}, k \in {1, 3}, e \in {0, -1, 0 - P(t), Hi(t) - P(t), 0 - P(t) - 1, 40, -40}}
  \cup {DNorm(0, AddN(TopN(t), NatN(2 * k)), e) : k \in {0, 1, 2}, e \in {0, 0 - P(t), 10, -60, 100 - 2 * P(t)}}
  \cup {DD(1, Lo(t)), DD(3, Lo(t)), DD(-1, Lo(t)), DD(1, Hi(t) - 1), DD(1, Lo(t) + P(t) - 1), DNorm(0, SubN(Pow2N(P(t) - 1), <<1>>), Lo(t))}
  \cup {VZero(0), Inf(0), Inf(1), NaN}
\* w decimal digits of n
RECURSIVE Digs(_, _)
Digs(n, w) == IF w = 1 THEN <<48 + SmallN(n)>> ELSE LET h == w \div 2 q == DivN(n, Pow10N(h)) IN Digs(q[1], w - h) \o Digs(q[2], h)
RECURSIVE Pow5N(_)
Pow5N(n) == IF n = 0 THEN <<1>> ELSE IF n % 2 = 1 THEN MulSmall(Pow5N(n - 1), 5) ELSE LET h == Pow5N(n \div 2) IN MulN(h, h)
\* the exact expansion of m * 2^e
Width(m) == BitLen(m) \div 3 + 1
Exp10(m, e) == IF e >= 0 THEN Digs(ShlN(m, e), Width(ShlN(m, e)))
               ELSE LET n == MulN(m, Pow5N(0 - e)) w == IF Width(n) > 0 - e THEN Width(n) ELSE 1 - e
                        d == Digs(n, w) IN SubSeq(d, 1, w + e) \o <<Dot>> \o From(d, w + e + 1)
Fin(t) == {v \in Grid(t) : Finite(v) /\ ~IsZero(v)}
\* the unit of the last place, and the next value up (v positive)
U(v) == (IF Top(v) > Lo(1) + 53 THEN Top(v) ELSE Lo(1) + 53) - 53
Scaled(v) == ShlN(v[2], v[3] - U(v))
Neg(sg, t) == IF sg = 1 THEN <<Minus>> \o t ELSE t
Dots(t) == IF First(t, {Dot}) > Len(t) THEN Append(t, Dot) ELSE t
\* <<text, expected value>>: the value itself; half a unit up (to the even neighbour); just off that
Ties(v) ==
  LET m == Scaled(v) u == U(v)
      half == AddN(ShlN(m, 1), <<1>>)
      upv == RoundTo(1, v[1], AddN(m, <<1>>), u, FALSE)
      even == m = <<>> \/ m[1] % 2 = 0
      h == Dots(Exp10(half, u - 1)) IN
  {<<Neg(v[1], Exp10(m, u)), v>>, <<Neg(v[1], h), IF even THEN v ELSE upv>>, <<Neg(v[1], h \o <<48, 48, 49>>), upv>>,
   <<Neg(v[1], SubSeq(h, 1, Len(h) - 1) \o <<IF h[Len(h)] = Dot THEN Dot ELSE h[Len(h)] - 1, 57, 57>>), IF h[Len(h)] = Dot THEN upv ELSE v>>}
Short == UNION {[1..n -> Alphabet] : n \in 0..MaxChars}
T(s) == s
Odds == {<<49, 101, 51, 48, 56>>, <<49, 101, 51, 48, 57>>, <<45, 49, 101, 51, 48, 57>>, <<49, 101, 45, 51, 50, 51>>, <<49, 101, 45, 51, 50, 52>>, <<50, 101, 45, 51, 50, 52>>, <<51, 101, 45, 51, 50, 52>>,
         <<49, 46, 55, 57, 55, 54, 57, 51, 49, 51, 52, 56, 54, 50, 51, 49, 53, 55, 101, 51, 48, 56>>, <<49, 46, 55, 57, 55, 54, 57, 51, 49, 51, 52, 56, 54, 50, 51, 49, 53, 57, 101, 51, 48, 56>>,
         <<49, 101, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57>>, <<49, 101, 45, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57>>, <<48, 101, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57>>, <<32, 49>>, <<49, 32>>, <<49, 10>>, <<49, 44, 53>>,
         <<49, 100, 53>>, <<49, 102>>, <<36, 49>>, <<49, 101, 49, 46, 53>>, <<48, 48, 49, 46, 53, 48>>}
Pairs(t) == {<<v, w>> \in Grid(t) \X {DD(1, 0), DD(-3, -1), VZero(0), NaN, Inf(1), DNorm(0, SubN(TopN(t), <<1>>), -30)} : TRUE}
Plans == {[p |-> <<C("parse", s)>>, w |-> <<>>] : s \in Short \cup Odds}
         \cup UNION {{[p |-> <<C("parse", x[1])>>, w |-> x[2]] : x \in Ties(v)} : v \in Fin(1)}
         \cup UNION {{[p |-> <<C("text", <<t>> \o VLog(v)), C("back", <<>>), C("display", <<t>> \o VLog(v)), C("debug", <<t>> \o VLog(v))>>, w |-> <<>>] : v \in Grid(t)} : t \in {0, 1}}
         \cup UNION {{[p |-> <<C(op, <<t + 2>> \o VLog(vw[1]) \o VLog(vw[2])), C(op, <<t + 2>> \o VLog(vw[2]) \o VLog(vw[1]))>>, w |-> <<>>] : vw \in Pairs(t), op \in {"text", "display", "debug"}} : t \in {0, 1}}
MCInit == Init /\ hist = <<>> /\ want = <<>>
Pick == hist = <<>> /\ \E p \in Plans : hist' = <<C("new", <<>>)>> \o p.p /\ want' = p.w
                      /\ (IF p.p[1].op = "parse" THEN Parse(p.p[1].a) /\ UNCHANGED last ELSE UNCHANGED xvars)
MCSpec == MCInit /\ [][Pick]_mcv
Emit == PrintT("SCRIPT " \o ToJson(hist'))
\* exact expansions, ties and points off them have the value they were made for
Expected == want # <<>> => (IF IsInf(want) THEN res.k = "err" ELSE res.k = "flt" /\ res.v = VLog(want))
\* a plain expansion means its value; with one more digit than needed it is not the text
Told == want # <<>> /\ Finite(want) => LET t == hist[2].a IN
          IF Plain(t) THEN Means(1, want, t) = Shortest(1, want, t) ELSE TRUE
\* negating a text negates its value
Mirror == (hist # <<>> /\ hist[2].op = "parse" /\ hist[2].a # <<>> /\ ~HasSign(hist[2].a)) =>
           LET t == hist[2].a n == <<Minus>> \o t IN IsNumeral(t) = IsNumeral(n) /\ (IsNumeral(t) => ValueOf(1, n) = VNeg(ValueOf(1, t)))
=============================================================================
