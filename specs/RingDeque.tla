----------------------------- MODULE RingDeque -----------------------------
(* The design behind VecDeque: a ring buffer with a head index that doubles  *)
(* when full, moving the shorter section when the contents wrap around.      *)
(* Checked to refine Deque (the abstract queue is the window that starts at  *)
(* head).  Its state graph supplies the histories: with Fresh elements the   *)
(* view is the layout (capacity, head, length), so that every call is        *)
(* replayed from every reachable layout within the bounds.                   *)
EXTENDS SeqOps, TLC, Json
CONSTANTS Elems, Fresh, MaxCap, MaxLen, MaxO, Depth, Caps
VARIABLES buf, head, len, o, res, last, hist
rvars == <<buf, head, len, o, res, last, hist>>

Cap == Len(buf)
At(b, h, i) == b[((h + i) % Len(b)) + 1]                 \* i-th element, 0-based
\* Tuple: written out, for TLC's queue of states on disk
Tuple(f) == SubSeq(f, 1, Len(f))
Abs == Tuple([i \in 1..len |-> At(buf, head, i - 1)])
D == INSTANCE Deque WITH s <- Abs, o <- o, res <- res

Put(b, h, i, x) == [b EXCEPT ![((h + i) % Len(b)) + 1] = x]
Pad(b, n) == b \o [i \in 1..n |-> 0]
\* buffer and head after the capacity grew from Len(b) to Len(b) + n
Grown(b, h, l, n) ==
  LET old == Len(b)  new == old + n  hl == old - h  tl == l - hl IN
  IF h <= old - l THEN <<Pad(b, n), h>>
  ELSE IF hl > tl /\ n >= tl
       THEN <<Tuple([i \in 1..new |-> IF i <= old THEN b[i] ELSE IF i - old <= tl THEN b[i - old] ELSE 0]), h>>
       ELSE <<Tuple([i \in 1..new |-> IF i > new - hl THEN b[i - n] ELSE IF i <= old THEN b[i] ELSE 0]), new - hl>>
Room == IF len = Cap THEN Grown(buf, head, len, Cap) ELSE <<buf, head>>
Wrap(h, c) == IF h < 0 THEN h + c ELSE h % c

\* sequence q laid out from head, in the current buffer
Lay(q) == [p \in 1..Cap |-> IF \E i \in 1..Len(q) : ((head + i - 1) % Cap) + 1 = p
                            THEN q[CHOOSE i \in 1..Len(q) : ((head + i - 1) % Cap) + 1 = p] ELSE buf[p]]
Window(q) == buf' = Tuple(Lay(q)) /\ len' = Len(q) /\ UNCHANGED head
Same == UNCHANGED <<buf, head, len, o>>
RECURSIVE PushAll(_, _, _, _)
PushAll(b, h, l, q) ==
  IF q = <<>> THEN <<b, h, l>>
  ELSE LET g == IF l = Len(b) THEN Grown(b, h, l, Len(b)) ELSE <<b, h>>
       IN  PushAll(Put(g[1], g[2], l, Head(q)), g[2], l + 1, Tail(q))

Step(e) ==
  CASE e.op = "pushb" -> LET g == Room IN
         buf' = Put(g[1], g[2], len, e.a[1]) /\ head' = g[2] /\ len' = len + 1 /\ res' = Unit /\ UNCHANGED o
    [] e.op = "pushf" -> LET g == Room  h == Wrap(g[2] - 1, Len(g[1])) IN
         buf' = [g[1] EXCEPT ![h + 1] = e.a[1]] /\ head' = h /\ len' = len + 1 /\ res' = Unit /\ UNCHANGED o
    [] e.op = "popf" -> IF len = 0 THEN res' = None /\ Same
         ELSE res' = Some(buf[head + 1]) /\ head' = Wrap(head + 1, Cap) /\ len' = len - 1 /\ UNCHANGED <<buf, o>>
    [] e.op = "popb" -> IF len = 0 THEN res' = None /\ Same
         ELSE res' = Some(At(buf, head, len - 1)) /\ len' = len - 1 /\ UNCHANGED <<buf, head, o>>
    [] e.op = "get" -> res' = (IF e.a[1] >= 0 /\ e.a[1] < len THEN Some(At(buf, head, e.a[1])) ELSE None) /\ Same
    [] e.op = "getun" -> e.a[1] < len /\ res' = Int1(At(buf, head, e.a[1])) /\ Same
    [] e.op = "front" -> res' = (IF len > 0 THEN Some(At(buf, head, 0)) ELSE None) /\ Same
    [] e.op = "back" -> res' = (IF len > 0 THEN Some(At(buf, head, len - 1)) ELSE None) /\ Same
    [] e.op = "set" -> IF e.a[1] >= 0 /\ e.a[1] < len
         THEN buf' = Put(buf, head, e.a[1], e.a[2]) /\ res' = None /\ UNCHANGED <<head, len, o>>
         ELSE res' = Some(e.a[2]) /\ Same
    [] e.op = "setun" -> e.a[1] < len /\ buf' = Put(buf, head, e.a[1], e.a[2]) /\ res' = Unit /\ UNCHANGED <<head, len, o>>
    [] e.op = "swap" -> e.a[1] < len /\ e.a[2] < len /\ Window(SwapAt0(Abs, e.a[1], e.a[2])) /\ res' = Unit /\ UNCHANGED o
    [] e.op = "retain" -> Window(SelectSeq(Abs, LAMBDA x : Key(x) % e.a[1] = e.a[2])) /\ res' = Unit /\ UNCHANGED o
    [] e.op = "dedup" -> Window(DedupBy(Abs, LAMBDA x : x)) /\ res' = Unit /\ UNCHANGED o
    [] e.op = "fill" -> Window([i \in 1..len |-> e.a[1]]) /\ res' = Unit /\ UNCHANGED o
    [] e.op = "fillwith" -> Window([i \in 1..len |-> e.a[1] + i - 1]) /\ res' = Unit /\ UNCHANGED o
    [] e.op = "contains" -> res' = Bool(\E i \in 0..(len - 1) : At(buf, head, i) = e.a[1]) /\ Same
    [] e.op = "reserve" -> LET g == Grown(buf, head, len, e.a[1]) IN
         buf' = g[1] /\ head' = g[2] /\ res' = R("cap", <<Len(g[1])>>) /\ UNCHANGED <<len, o>>
    [] e.op = "capacity" -> res' = R("cap", <<Cap>>) /\ Same
    [] e.op = "append" -> LET g == Grown(buf, head, len, Len(o))
                              p == PushAll(g[1], g[2], len, o) IN
         buf' = p[1] /\ head' = p[2] /\ len' = p[3] /\ o' = <<>> /\ res' = Unit
    [] e.op = "xchg" -> /\ o' = Abs /\ res' = Unit /\ len' = Len(o) /\ head' = 0
                        /\ buf' = o \o [i \in 1..(7 - Min2(7, Len(o))) |-> 0]
    [] e.op = "clear" -> buf' = Tuple([i \in 1..7 |-> 0]) /\ head' = 0 /\ len' = 0 /\ res' = Unit /\ UNCHANGED o
    [] e.op = "len" -> res' = Int1(len) /\ Same
    [] e.op = "isempty" -> res' = Bool(len = 0) /\ Same
    [] e.op \in {"asslice", "iter"} -> res' = SeqR(Abs) /\ Same

New(e) == /\ buf' = Tuple([i \in 1..(IF e.a[2] = 0 THEN 7 ELSE Max2(1, e.a[3])) |-> 0])
          /\ head' = 0 /\ len' = (IF e.a[2] = 2 THEN e.a[3] ELSE 0) /\ o' = <<>>
          /\ res' = R("cap", <<Len(buf')>>)

Vals == IF Fresh THEN {100 * (Len(hist) + 1)} ELSE Elems
C(op, a) == [op |-> op, a |-> a]
Idx == {0, len - 1, len \div 2, len} \cap Nat
\* indices near 2^64 (minus i), 2^63 and 2^32: see Deque.tla
Huge == {-1, -1073741824, -536870912}
Calls ==
  {C(op, <<x>>) : op \in {"pushb", "pushf", "fill", "fillwith", "contains"}, x \in Vals}
  \cup {C("contains", <<At(buf, head, i)>>) : i \in Idx}
  \cup {C(op, <<>>) : op \in {"popb", "popf", "front", "back", "dedup", "append", "xchg", "clear", "capacity", "len", "isempty", "asslice", "iter"}}
  \cup {C("get", <<i>>) : i \in Idx \cup Huge} \cup {C("getun", <<i>>) : i \in Idx}
  \cup {C("set", <<i, x>>) : i \in Idx \cup Huge, x \in Vals} \cup {C("setun", <<i, x>>) : i \in Idx, x \in Vals}
  \cup {C("swap", <<i, j>>) : i \in Idx, j \in Idx}
  \cup {C("retain", <<2, r>>) : r \in {0, 1}} \cup {C("reserve", <<n>>) : n \in {0, 1, 3}}
News == {C("new", <<t, m, n>>) : t \in {0}, m \in {0, 1, 2}, n \in Caps}

Init == buf = <<>> /\ head = 0 /\ len = 0 /\ o = <<>> /\ res = Unit /\ last = C("none", <<>>) /\ hist = <<>>
Next == \E e \in (IF hist = <<>> THEN News ELSE Calls) :
           /\ IF hist = <<>> THEN New(e) ELSE Step(e)
           /\ hist' = Append(hist, e) /\ last' = [e EXCEPT !.a = e.a] @@ [v |-> res'.v]
Spec == Init /\ [][Next]_rvars
Bound == Cap <= MaxCap /\ len <= MaxLen /\ Len(o) <= MaxO /\ Len(hist) <= Depth
Masked == [i \in 1..Cap |-> IF \E k \in 0..(len - 1) : ((head + k) % Cap) + 1 = i THEN buf[i] ELSE 0]
View == IF Fresh THEN <<Cap, head, len, Len(o), hist = <<>>>> ELSE <<Masked, head, len, o, hist = <<>>>>
Emit == Bound' => PrintT("SCRIPT " \o ToJson(hist'))
TypeOK == hist # <<>> => len <= Cap /\ head \in 0..(Cap - 1) /\ Cap >= 1
Refines == [][D!Do(last')]_rvars
=============================================================================
