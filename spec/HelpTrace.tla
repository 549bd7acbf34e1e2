------------------------------ MODULE HelpTrace ------------------------------
(***************************************************************************)
(* Helper enumerations and scoped directories (C22).                       *)
(***************************************************************************)
EXTENDS DirMachine, TraceRun

RECURSIVE Partitions(_, _)
\* partitions of n with parts of at most m, largest first
Partitions(n, m) == IF n = 0 THEN {<<>>} ELSE UNION {{<<k>> \o q : q \in Partitions(n - k, k)} : k \in 1..(IF m < n THEN m ELSE n)}
RECURSIVE Largest(_)
Largest(q) == IF q = <<>> THEN <<>> ELSE
  LET i == CHOOSE i \in DOMAIN q : \A j \in DOMAIN q : q[j] <= q[i] IN <<q[i]>> \o Largest([k \in 1..(Len(q) - 1) |-> IF k < i THEN q[k] ELSE q[k + 1]])
PartVerdict(e) ==
  LET got == {Largest(e.out[i]) : i \in DOMAIN e.out} IN
  IF got # Partitions(e.n, e.n) THEN "the partitions are not those of the number"
  ELSE IF Len(e.out) # Cardinality(got) THEN "a partition is listed twice"
  ELSE "ok"
SepVerdict(e) ==
  LET got == {e.out[i] : i \in DOMAIN e.out}
      want == {<<i, e.n - i>> : i \in (IF e.zero THEN 0..e.n ELSE 1..(e.n - 1))} IN
  IF got # want THEN "the splits are not those of the number"
  ELSE IF Len(e.out) # Cardinality(got) THEN "a split is listed twice"
  ELSE "ok"
SeqSet(q) == {q[i] : i \in DOMAIN q}
RECURSIVE Walk(_, _, _)
Walk(s, e, i) ==
  IF i > Len(e.steps) THEN "ok"
  ELSE LET x == e.steps[i]  t == After(s, x)  r == e.got[i] IN
       IF r.ok # Succeeds(s, x) THEN "step " \o x.a \o (IF r.ok THEN " should have failed" ELSE " failed")
       ELSE IF r.cwd # t.cwd THEN "current directory is wrong after " \o x.a
       ELSE IF SeqSet(r.dirs) # t.dirs THEN "existing directories are wrong after " \o x.a
       ELSE IF x.a = "raise" /\ ~r.prop THEN "an exception of the body is swallowed"
       ELSE IF x.a = "leave" /\ r.prop THEN "leaving raised"
       ELSE Walk(t, e, i + 1)
MyVerdict(e) == IF e.exc # "" THEN "raised: " \o e.exc
  ELSE CASE e.ev = "part" -> PartVerdict(e) [] e.ev = "sep" -> SepVerdict(e) [] e.ev = "dir" -> Walk(Start, e, 1)
=============================================================================
