------------------------------- MODULE Assert -------------------------------
(* C25: assertions and unconditional panics.  An observation is how a call     *)
(* ended: returned, or panicked with a text.                                   *)
EXTENDS Format
\* two more kinds of operand: floats 20 (zero, minus zero, not a number, 3/2,
\* infinity) and 21, a caller's type whose equality looks at the last digit
FloatText(i) == << <<48>>, <<45, 48>>, <<78, 97, 78>>, <<49, 46, 53>>, <<43, 73, 110, 102>> >>[i + 1]
OperandTexts(v) == CASE v[1] = 20 -> {FloatText(v[2])}
                     [] v[1] = 21 -> {<<109>> \o Dec(v[2])}
                     [] OTHER -> Displays(v)
RECURSIVE SameList(_, _), Same(_, _)
Unordered(q) == {q[i] : i \in 3..Len(q)}
\* equality as the operands' type has it
Same(x, y) == CASE x[1] = 20 -> x[2] # 2 /\ y[2] # 2 /\ (x[2] = y[2] \/ {x[2], y[2]} = {0, 1})
                [] x[1] = 21 -> x[2] % 10 = y[2] % 10
                [] x[1] = 7 -> Unordered(x) = Unordered(y)
                [] OTHER -> x = y
SameList(x, y) == Len(x) = Len(y) /\ \A i \in 1..Len(x) : Same(x[i], y[i])
\* a = <<form>> \o call: form 0: the message is a gost string, 1: a Go string, 2: none given
Msg(a) == IF a[1] = 2 THEN {<<>>} ELSE Texts(Tail(a))
Inside(q, p) == \E i \in 1..(Len(q) + 1 - Len(p)) : \A j \in 1..Len(p) : q[i + j - 1] = p[j]
\* panicked with a text showing one of what S has (anything if S has nothing)
Shows(r, S) == r.k = "panicked" /\ (S = {} \/ \E t \in S : Inside(r.v, t))
\* panicked with just one of these texts (any if S has nothing)
Says(r, S) == r.k = "panicked" /\ (S = {} \/ r.v \in S)
Calm(r) == r.k = "returned"
\* operands: <<length of x>> \o x \o <<length of y>> \o y \o message
X(a) == SubSeq(a, 2, a[1] + 1)
Y(a) == SubSeq(a, a[1] + 3, a[1] + 2 + a[a[1] + 2])
M(a) == SubSeq(a, a[1] + 3 + a[a[1] + 2], Len(a))
Violated(a, bad, r) == IF bad THEN Shows(r, OperandTexts(X(a))) /\ Shows(r, OperandTexts(Y(a))) /\ Shows(r, Msg(M(a)))
                       ELSE Calm(r)
\* an argument is missing: it panics, whatever it says
Unsayable(a) == Msg(a) = {}
AJudge(e, r) ==
  LET a == e.a IN
  CASE e.op = "new" -> r = Unit
    [] e.op = "assert" -> IF a[1] = 1 THEN Calm(r) ELSE IF a[2] = 2 THEN Shows(r, {}) ELSE Says(r, Msg(Tail(a)))
    [] e.op = "eq" -> IF Unsayable(M(a)) /\ ~Same(X(a), Y(a)) THEN Shows(r, {}) ELSE Violated(a, ~Same(X(a), Y(a)), r)
    [] e.op = "ne" -> IF Unsayable(M(a)) /\ Same(X(a), Y(a)) THEN Shows(r, {}) ELSE Violated(a, Same(X(a), Y(a)), r)
    [] e.op = "panic" -> Says(r, Msg(a))
    [] e.op \in {"unimplemented", "unreachable", "todo"} -> Says(r, IF a = <<>> THEN {} ELSE {Tail(a)})
ADo(e, r) == AJudge(e, r) /\ res' = r
=============================================================================
