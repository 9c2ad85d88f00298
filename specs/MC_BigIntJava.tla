--------------------------- MODULE MC_BigIntJava ---------------------------
(* The native evaluation of BigInt's natural numbers (lib/java) agrees with     *)
(* their definitions.  BigIntDef is a copy of BigInt under another name, which   *)
(* nothing overrides (the check makes it).                                       *)
EXTENDS BigInt, TLC
CONSTANT Seed
D == INSTANCE BigIntDef
\* a pseudo-random magnitude of up to seven limbs, with limbs at the ends of the range made likely
RECURSIVE Rnd(_, _)
Rnd(s, n) == IF n = 0 THEN s ELSE Rnd((s * 1103 + 12345) % 65521, n - 1)
Limb(s) == LET r == Rnd(s, 3) IN IF r % 5 = 0 THEN 0 ELSE IF r % 5 = 1 THEN 4095 ELSE r % 4096
Mag(s) == Trim([k \in 1..(Rnd(s, 2) % 8) |-> Limb((s * 31 + k * 977) % 65521)])
Edge == {<<>>, <<1>>, <<4095>>, <<0, 1>>, <<4095, 4095>>, <<0, 0, 1>>, <<1, 4095>>, <<2048>>, <<0, 2048>>}
Mags == Edge \cup {Mag(Seed * 100 + k) : k \in 1..40}
Shifts == {0, 1, 11, 12, 13, 24, 30, 47}
ASSUME \A p \in Mags, q \in Mags :
  /\ AddN(p, q) = D!AddN(p, q) /\ MulN(p, q) = D!MulN(p, q) /\ CmpN(p, q) = D!CmpN(p, q)
  /\ (D!CmpN(p, q) >= 0 => SubN(p, q) = D!SubN(p, q))
  /\ (q # <<>> => DivN(p, q) = D!DivN(p, q))
ASSUME \A p \in Mags, n \in Shifts : ShlN(p, n) = D!ShlN(p, n) /\ ShrN(p, n) = D!ShrN(p, n) /\ LowN(p, n) = D!LowN(p, n)
ASSUME \A p \in Mags, m \in {0, 1, 2, 10, 4095} : MulSmall(p, m) = D!MulSmall(p, m)
VARIABLE dummy
Init == dummy = 0
Next == UNCHANGED dummy
Spec == Init /\ [][Next]_dummy
=============================================================================
