------------------------------ MODULE Duration ------------------------------
(* C17: a duration is its exact length in nanoseconds; whatever it is built    *)
(* from and whatever is asked of it is stated from that one number.            *)
EXTENDS SeqOps, BigInt
VARIABLES d, res
dvars == <<d, res>>
Ns(u) == CASE u = "s" -> Z(1000000000) [] u = "ms" -> Z(1000000) [] u = "us" -> Z(1000) [] u = "ns" -> Z(1)
Secs(n) == QuoI(n, Ns("s"))
Sub(n) == RemI(n, Ns("s"))
MaxSecs == MaxI(64, FALSE)
Init == d = Zero /\ res = Unit
Is(n) == IF CmpI(Secs(n), MaxSecs) > 0 THEN res' = Panic /\ UNCHANGED d
         ELSE d' = n /\ res' = Unit
Tell(n) == res' = R("val", Log12(n)) /\ UNCHANGED d
Do(e) ==
  LET a == IF e.a = <<>> THEN Zero ELSE Num(e.a, 1) IN
  CASE e.op = "new"       -> d' = Zero /\ res' = Unit
    [] e.op = "dnew"      -> Is(AddI(MulI(a, Ns("s")), Num(e.a, 13)))
    [] e.op = "fromsecs"  -> Is(MulI(a, Ns("s")))
    [] e.op = "frommillis" -> Is(MulI(a, Ns("ms")))
    [] e.op = "frommicros" -> Is(MulI(a, Ns("us")))
    [] e.op = "fromnanos" -> Is(a)
    [] e.op = "iszero"    -> res' = Bool(d = Zero) /\ UNCHANGED d
    [] e.op = "assecs"    -> Tell(Secs(d))
    [] e.op = "submillis" -> Tell(QuoI(Sub(d), Ns("ms")))
    [] e.op = "submicros" -> Tell(QuoI(Sub(d), Ns("us")))
    [] e.op = "subnanos"  -> Tell(Sub(d))
    [] e.op = "asmillis"  -> Tell(QuoI(d, Ns("ms")))
    [] e.op = "asmicros"  -> Tell(QuoI(d, Ns("us")))
    [] e.op = "asnanos"   -> Tell(d)
\* what a duration shows of itself at any time: seconds and sub-second nanoseconds
ObsOf(n) == <<Log12(Secs(n)), Log12(Sub(n))>>
=============================================================================
