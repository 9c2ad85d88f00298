------------------------------ MODULE FileSys ------------------------------
(* C21: a tree of directories, files and symbolic links under one root, and    *)
(* the operations on it.  A path is a sequence of names (numbers); contents    *)
(* are written as maximal runs <<first byte, length, ...>> of bytes that count *)
(* up modulo 256, so that every content is written in exactly one way.         *)
EXTENDS SeqOps, TLC
VARIABLES fs,        \* path -> [k |-> kind, m |-> permission bits, c |-> contents or target]
          super,     \* the caller's accesses are not checked
          res
fvars == <<fs, super, res>>
DIR == 0
FILE == 1
LINK == 2
Node(k, m, c) == [k |-> k, m |-> m, c |-> c]
Ok(v) == R("ok", v)
Err == R("err", <<>>)
CanR(n) == super \/ (n.m \div 256) % 2 = 1
CanW(n) == super \/ (n.m \div 128) % 2 = 1
CanX(n) == super \/ (n.m \div 64) % 2 = 1
Parent(p) == SubSeq(p, 1, Len(p) - 1)
Under(d, p) == Len(p) > Len(d) /\ SubSeq(p, 1, Len(d)) = d
Children(d) == {p \in DOMAIN fs : Len(p) = Len(d) + 1 /\ Under(d, p)}
\* where a path leads: [g |-> is it sound, p |-> the place], which may not exist
Bad == [g |-> FALSE, p |-> <<>>]
RECURSIVE Walk(_, _, _, _)
Walk(cur, rest, fuel, follow) ==
  IF rest = <<>> THEN [g |-> TRUE, p |-> cur]
  ELSE IF fuel = 0 \/ fs[cur].k # DIR \/ ~CanX(fs[cur]) THEN Bad
  ELSE LET nxt == Append(cur, Head(rest)) last == Len(rest) = 1 IN
       IF nxt \notin DOMAIN fs THEN (IF last THEN [g |-> TRUE, p |-> nxt] ELSE Bad)
       ELSE IF fs[nxt].k = LINK THEN (IF last /\ ~follow THEN [g |-> TRUE, p |-> nxt]
                                      ELSE Walk(cur, fs[nxt].c \o Tail(rest), fuel - 1, follow))
       ELSE IF last THEN [g |-> TRUE, p |-> nxt]
       ELSE IF fs[nxt].k = FILE THEN Bad
       ELSE Walk(nxt, Tail(rest), fuel, follow)
\* the place itself / the place a final link leads to
Place(p) == Walk(<<>>, p, 8, FALSE)
Target(p) == Walk(<<>>, p, 8, TRUE)
Exists(w) == w.g /\ w.p \in DOMAIN fs
Absent(w) == w.g /\ w.p \notin DOMAIN fs
\* entries may be made in and taken out of the directory of w
Open(w) == w.p # <<>> /\ CanW(fs[Parent(w.p)]) /\ CanX(fs[Parent(w.p)])
\* paths come as <<length>> \o names
P1(a) == SubSeq(a, 2, a[1] + 1)
Rest(a) == SubSeq(a, a[1] + 2, Len(a))
Same == UNCHANGED <<fs, super>>
Fail == res' = Err /\ Same
Put(p, n) == fs' = [q \in DOMAIN fs \cup {p} |-> IF q = p THEN n ELSE fs[q]] /\ UNCHANGED super
Drop(p) == fs' = [q \in DOMAIN fs \ {p} |-> fs[q]] /\ UNCHANGED super
\* move the subtree at p to q, over whatever was there
Move(p, q) ==
  LET kept == {x \in DOMAIN fs : x # p /\ ~Under(p, x) /\ x # q}
      moved == {x \in DOMAIN fs : x = p \/ Under(p, x)}
      to(x) == q \o SubSeq(x, Len(p) + 1, Len(x))
      from(y) == p \o SubSeq(y, Len(q) + 1, Len(y))
      dest == {to(x) : x \in moved}
  IN fs' = [y \in kept \cup dest |-> IF y \in dest THEN fs[from(y)] ELSE fs[y]] /\ UNCHANGED super
Done == res' = Ok(<<>>)
CreateDir(p, m) == LET w == Place(p) IN
  IF Absent(w) /\ Open(w) THEN Put(w.p, Node(DIR, m, <<>>)) /\ Done ELSE Fail
RemoveDir(p) == LET w == Place(p) IN
  IF Exists(w) /\ fs[w.p].k = DIR /\ Children(w.p) = {} /\ Open(w) THEN Drop(w.p) /\ Done ELSE Fail
RemoveFile(p) == LET w == Place(p) IN
  IF Exists(w) /\ fs[w.p].k # DIR /\ Open(w) THEN Drop(w.p) /\ Done ELSE Fail
\* m: the permission bits a new file gets
Write(p, c, m) == LET w == Target(p) IN
  \* a file that may be written but not read: the library may insist on both
  IF Exists(w) THEN (IF fs[w.p].k = FILE /\ CanW(fs[w.p])
                     THEN (Put(w.p, [fs[w.p] EXCEPT !.c = c]) /\ Done) \/ (~CanR(fs[w.p]) /\ Fail)
                     ELSE Fail)
  ELSE IF Absent(w) /\ Open(w) THEN Put(w.p, Node(FILE, m, c)) /\ Done ELSE Fail
Read(p) == LET w == Target(p) IN
  IF Exists(w) /\ fs[w.p].k = FILE /\ CanR(fs[w.p]) THEN res' = Ok(fs[w.p].c) /\ Same ELSE Fail
\* the listing: an entry is <<name, kind, does its path name it>>
Entries(d) == {<<p[Len(p)], fs[p].k, 1>> : p \in Children(d)}
Triples(v) == {<<v[3 * i - 2], v[3 * i - 1], v[3 * i]>> : i \in 1..(Len(v) \div 3)}
ReadDir(p, r) == LET w == Target(p) IN
  IF Exists(w) /\ fs[w.p].k = DIR /\ CanR(fs[w.p])
  THEN /\ r.k = "ok" /\ Len(r.v) = 3 * Cardinality(Children(w.p)) /\ Triples(r.v) = Entries(w.p)
       /\ res' = r /\ Same
  ELSE Fail
Copy(p, q) == LET f == Target(p) t == Target(q) IN
  IF ~(Exists(f) /\ fs[f.p].k = FILE /\ CanR(fs[f.p])) THEN Fail
  ELSE LET n == fs[f.p] IN
       IF Exists(t) THEN
          IF t.p = f.p THEN Same /\ (Done \/ (~CanW(n) /\ res' = Err))
          ELSE IF fs[t.p].k = FILE /\ CanW(fs[t.p]) THEN Put(t.p, n) /\ Done ELSE Fail
       ELSE IF Absent(t) /\ Open(t) THEN Put(t.p, n) /\ Done ELSE Fail
\* whether an empty directory may be replaced by another is left open
Rename(p, q) == LET f == Place(p) t == Place(q) IN
  IF ~(Exists(f) /\ t.g) THEN Fail
  ELSE IF t.p = f.p THEN Same /\ (Done \/ ((fs[f.p].k = DIR \/ ~Open(f)) /\ res' = Err))
  ELSE IF ~(Open(f) /\ Open(t)) THEN Fail
  ELSE LET n == fs[f.p] IN
       IF n.k = DIR /\ Parent(f.p) # Parent(t.p) /\ ~CanW(n) THEN Fail
       ELSE IF Under(f.p, t.p) THEN Fail
       ELSE IF t.p \notin DOMAIN fs THEN Move(f.p, t.p) /\ Done
       ELSE LET o == fs[t.p] IN
            IF n.k # DIR THEN (IF o.k # DIR THEN Move(f.p, t.p) /\ Done ELSE Fail)
            ELSE IF o.k # DIR \/ Children(t.p) # {} THEN Fail
            ELSE (Move(f.p, t.p) /\ Done) \/ Fail
\* what the surroundings do, not the library
Chmod(p, m) == Exists(Place(p)) /\ Put(p, [fs[p] EXCEPT !.m = m]) /\ res' = Unit
Link(p, to) == Absent(Place(p)) /\ Put(p, Node(LINK, 511, to)) /\ res' = Unit
Init == fs = (<<>> :> Node(DIR, 493, <<>>)) /\ super = FALSE /\ res = Unit
\* m: permission bits of what the call created, as observed; r: its result
Do(e, m, r) ==
  LET a == e.a IN
  CASE e.op = "new"        -> fs' = (<<>> :> Node(DIR, 493, <<>>)) /\ super' = (r.v = <<1>>) /\ res' = r
    [] e.op = "chmod"      -> Chmod(P1(a), Rest(a)[1])
    [] e.op = "symlink"    -> Link(P1(a), Rest(a))
    [] e.op = "createdir"  -> CreateDir(P1(a), m)
    [] e.op = "removedir"  -> RemoveDir(P1(a))
    [] e.op = "removefile" -> RemoveFile(P1(a))
    [] e.op = "write"      -> Write(P1(a), Rest(a), m)
    \* the asynchronous call, never awaited, on a place that is free: has its effect all the same
    [] e.op = "fire"       -> Write(P1(a), Rest(a), m) /\ res' = Ok(<<>>)
    [] e.op = "firedir"    -> CreateDir(P1(a), m) /\ res' = Ok(<<>>)
    [] e.op \in {"read", "readtostring"} -> Read(P1(a))
    [] e.op = "readdir"    -> ReadDir(P1(a), r)
    [] e.op = "copy"       -> Copy(P1(a), Rest(a))
    [] e.op = "rename"     -> Rename(P1(a), Rest(a))
    \* a file of the system whose size is not known in advance
    [] e.op = "readkernel" -> res' = Ok(<<76, 1, 105, 1, 110, 1, 117, 1, 120, 1, 10, 1>>) /\ Same
Obs(f) == {<<Len(p)>> \o p \o <<f[p].k>> \o (IF f[p].k = LINK THEN <<>> ELSE <<f[p].m>>) \o f[p].c : p \in DOMAIN f}
Tree == \A p \in DOMAIN fs : p = <<>> \/ (Parent(p) \in DOMAIN fs /\ fs[Parent(p)].k = DIR)
FailsCleanly == [][res' = Err /\ res'.k = "err" => fs' = fs]_fvars
=============================================================================
