------------------------------ MODULE ObjTrace ------------------------------
(***************************************************************************)
(* Recorded calls on single objects: comparisons (C12), reordering and     *)
(* permutations (C13), constructors (C14), spaces and counters (C15).      *)
(***************************************************************************)
EXTENDS Labels, TraceRun

\* ---------------------------------------------------------------- order
LexLess(x, y) == \E k \in DOMAIN x : x[k] < y[k] /\ \A m \in 1..(k - 1) : x[m] = y[m]
\* e.eq etc. are n x n matrices of results; key[i] identifies the structure of object i
OrderVerdict(e) ==
  LET D == 1..e.n IN
  IF \E i, j \in D : e.eq[i][j] = e.ne[i][j] THEN "== and != are not complementary"
  ELSE IF \E i, j \in D : e.lt[i][j] = e.ge[i][j] THEN "< and >= are not complementary"
  ELSE IF \E i, j \in D : e.gt[i][j] = e.le[i][j] THEN "> and <= are not complementary"
  ELSE IF \E i, j \in D : e.lt[i][j] # e.gt[j][i] THEN "x < y and y > x differ"
  ELSE IF \E i, j \in D : e.eq[i][j] # (e.key[i] = e.key[j]) THEN "equality is not equality of the contents"
  ELSE IF \E i, j \in D : e.eq[i][j] /\ ~(e.le[i][j] /\ e.ge[i][j]) THEN "equal objects are ordered strictly"
  ELSE IF ~e.pre /\ \E i, j \in D : e.le[i][j] /\ e.ge[i][j] /\ ~e.eq[i][j] THEN "different objects are not ordered"
  ELSE IF \E i, j, k \in D : e.le[i][j] /\ e.le[j][k] /\ ~e.le[i][k] THEN "<= is not transitive"
  ELSE IF e.hash # <<>> /\ \E i, j \in D : e.eq[i][j] /\ e.hash[i] # e.hash[j] THEN "equal objects have different hashes"
  ELSE IF \E r \in DOMAIN e.sorts : SeqSet(e.sorts[r]) # D \/ Len(e.sorts[r]) # e.n THEN "sorting lost an object"
  ELSE IF \E r \in DOMAIN e.sorts : \E i, j \in D : i < j /\ ~e.le[e.sorts[r][i]][e.sorts[r][j]] THEN "sorting does not order"
  ELSE IF ~e.pre /\ \E r \in DOMAIN e.sorts : \E i \in D : e.key[e.sorts[r][i]] # e.key[e.sorts[1][i]]
       THEN "the sorted order depends on the initial arrangement"
  ELSE IF e.kind = "index" /\ \E i, j \in D : e.lt[i][j] # LabLess(e.lab[i], e.lab[j]) THEN "indices are not ordered by space and number"
  ELSE IF e.kind = "counter" /\ \E i, j \in D : e.lt[i][j] # LexLess(e.cost[i], e.cost[j])
       THEN "counters are not ordered by total scaling, virtual, core and active powers"
  ELSE "ok"

\* ---------------------------------------------------------------- reordering
RowCanon(anti, q, r) == IF anti THEN IsPerm(q, r) /\ SortedLabels(r) ELSE q = r
CanonVerdict(e) ==
  LET anti == e.it # "sa"
      want == IF anti THEN ParityBetween(e.u, e.ou) * ParityBetween(e.l, e.ol) ELSE 1 IN
  IF ~RowCanon(anti, e.u, e.ou) \/ ~RowCanon(anti, e.l, e.ol) THEN "canonicalize does not return the sorted indices"
  ELSE IF e.sign # want THEN "canonicalize returns the wrong sign"
  ELSE IF ~e.same THEN "canonicalize changed the kind or the name"
  ELSE "ok"
CountVerdict(e) == IF e.out = InvBetween(e.u, e.ou) THEN "ok" ELSE "wrong number of permutations"

\* blocks: sequence of sequences of labels, a partition of q.  The distinct distributions of the labels of q over
\* the places, labels of one block keeping their order.
RECURSIVE Insertions(_, _)
\* all ways to interleave sequence r into sequence q
Insertions(q, r) ==
  IF r = <<>> THEN {q} ELSE IF q = <<>> THEN {r}
  ELSE {<<Head(q)>> \o x : x \in Insertions(Tail(q), r)} \cup {<<Head(r)>> \o x : x \in Insertions(q, Tail(r))}
RECURSIVE Distrib(_, _)
Distrib(blocks, i) == IF i > Len(blocks) THEN {<<>>} ELSE UNION {Insertions(x, blocks[i]) : x \in Distrib(blocks, i + 1)}
SpinPat(q) == [i \in DOMAIN q |-> IsBeta(q[i][1])]
OneSpin(q) == NBetaOf(q) \in {0, Len(q)}
Enumerated(q, blocks) == {r \in Distrib(blocks, 1) : SpinPat(r) = SpinPat(q)}
PermVerdict(e) ==
  LET anti == e.it # "sa"
      wu == IF anti THEN Enumerated(e.u, e.pu) ELSE {e.u}
      wl == IF anti THEN Enumerated(e.l, e.pl) ELSE {e.l}
      want == wu \X wl
      got == {<<e.out[i][2], e.out[i][3]>> : i \in DOMAIN e.out}
      num == IF anti THEN Cardinality(Distrib(e.pu, 1)) * Cardinality(Distrib(e.pl, 1)) ELSE 1
  IN
  IF Cardinality(got) # Len(e.out) THEN "a permutation is enumerated twice"
  ELSE IF got # want THEN "the enumerated permutations are not the distinct distributions of the indices"
  ELSE IF \E i \in DOMAIN e.out : e.out[i][1] # ParityBetween(e.u, e.out[i][2]) * ParityBetween(e.l, e.out[i][3])
       THEN "a permutation has the wrong sign"
  ELSE IF e.num # num THEN "the number of permutations is wrong"
  ELSE IF e.lnum >= 0 /\ e.lnum # num THEN "the number of permutations printed is wrong"
  ELSE IF anti /\ OneSpin(e.u) /\ OneSpin(e.l) /\ e.num # Len(e.out) THEN "the number of permutations is not the number enumerated"
  ELSE IF e.exist # (num > 1) THEN "the existence of a permutation format is wrong"
  ELSE IF e.lchk /\ e.lgroups # (IF num = 1 THEN <<>> ELSE (IF Len(e.pu) > 1 /\ anti /\ e.u # <<>> THEN <<e.pu>> ELSE <<>>)
                                             \o (IF Len(e.pl) > 1 /\ anti /\ e.l # <<>> THEN <<e.pl>> ELSE <<>>))
       THEN "the printed permutation operator is wrong"
  ELSE "ok"

\* ---------------------------------------------------------------- constructors
\* raw label [s, d, n]: space letter, text after it, and the number it spells (-1: none)
LabOK(x) == Valid(x.s) /\ x.n >= 0
Lab(x) == <<x.s, x.n>>
Labs(q) == [i \in DOMAIN q |-> Lab(q[i])]
RowOK(it, q) == /\ \A i \in DOMAIN q : LabOK(q[i])
                /\ Distinct(Labs(q))
                /\ (it = "so" => \A i \in DOMAIN q : ~IsBeta(q[i].s))
KnownKind(it) == it \in {"so", "si", "sa", "asymm"}
HoleLab(x) == ToLower(x.s) \in {"h", "c"}
PartLab(x) == ToLower(x.s) \in {"p", "v"}
NBetaRaw(q) == Cardinality({i \in DOMAIN q : IsBeta(q[i].s)})
PairOK(it, u, l) == KnownKind(it) /\ RowOK(it, u) /\ RowOK(it, l)
Conserves(u, l) == Len(u) = Len(l) /\ NBetaRaw(u) = NBetaRaw(l)
TensorOK(n, it, u, l) ==
  /\ PairOK(it, u, l)
  /\ (n \in {"H", "T", "L", "K", "C"} => Conserves(u, l))
  /\ (n \in {"K", "C"} => Len(u) = 1)
  /\ (n = "T" => \A q \in {u, l} : ~((\E i \in DOMAIN q : HoleLab(q[i])) /\ (\E i \in DOMAIN q : PartLab(q[i]))))
  /\ n \in {"H", "T", "L", "K", "C", "X"}
CountIn(q, x) == Cardinality({i \in DOMAIN q : q[i] = x})
RECURSIVE CountAll(_, _, _)
CountAll(fs, x, i) == IF i > Len(fs) THEN 0 ELSE CountIn(Labs(fs[i].u), x) + CountIn(Labs(fs[i].l), x) + CountAll(fs, x, i + 1)
TermOK(fs, it) ==
  /\ \A i \in DOMAIN fs : fs[i].it = it
  /\ \A i \in DOMAIN fs : IF fs[i].n = "O" THEN PairOK(it, fs[i].u, fs[i].l) ELSE TensorOK(fs[i].n, it, fs[i].u, fs[i].l)
  /\ LET all == UNION {SeqSet(Labs(fs[i].u)) \cup SeqSet(Labs(fs[i].l)) : i \in DOMAIN fs}
         diag == UNION {SeqSet(Labs(fs[i].u)) \cap SeqSet(Labs(fs[i].l)) : i \in DOMAIN fs}
     IN  \A x \in all : IF x \in diag THEN CountAll(fs, x, 1) % 2 = 0 ELSE CountAll(fs, x, 1) = 2
FormOK(f) == f \in {"list", "str", "index", "tuple"}
CtorVerdict(e) ==
  LET want == CASE e.k = "index" -> LabOK(e.u[1]) /\ e.form = "str"
                [] e.k = "indices" -> KnownKind(e.it) /\ FormOK(e.form) /\ RowOK(e.it, e.u)
                [] e.k = "op" -> FormOK(e.form) /\ PairOK(e.it, e.u, e.l)
                [] e.k = "tensor" -> FormOK(e.form) /\ TensorOK(e.n, e.it, e.u, e.l)
                [] e.k = "term" -> e.coefok /\ TermOK(e.fs, e.it)
  IN  IF e.ok /\ ~want THEN "a malformed " \o e.k \o " is accepted"
      ELSE IF ~e.ok /\ want THEN "a well-formed " \o e.k \o " is refused"
      ELSE IF e.ok /\ ~e.same THEN "the constructed " \o e.k \o " does not report what it was given"
      ELSE IF e.ok /\ e.k \in {"index", "indices", "op", "tensor"} /\ (e.ru # Labs(e.u) \/ e.rl # Labs(e.l))
           THEN "the constructed " \o e.k \o " has other indices"
      ELSE "ok"

\* ---------------------------------------------------------------- spaces
DowngradeVerdict(e) ==
  LET both == Denotes(e.a) \cap Denotes(e.b)
      want == {x \in both : CASE e.n = "K" -> TRUE [] e.n = "L" -> ToLower(x) # "v" [] e.n = "C" -> ToLower(x) # "c"}
      got == IF e.out = "" THEN {} ELSE IF Valid(e.out) THEN Denotes(e.out) ELSE {"?"}
  IN  IF got = want THEN "ok" ELSE "the reported space of " \o e.n \o " is not where it can be nonzero"
FindVerdict(e) == IF Valid(e.out) /\ Denotes(e.out) = SeqSet(e.set) THEN "ok" ELSE "the label found does not denote the set"
RECURSIVE SumOver(_, _, _)
\* e.cnt: sequence of <<label, count>>
SumOver(cnt, S, i) == IF i > Len(cnt) THEN 0 ELSE (IF ToLower(cnt[i][1]) \in S THEN cnt[i][2] ELSE 0) + SumOver(cnt, S, i + 1)
CounterVerdict(e) ==
  LET v == SumOver(e.cnt, {"v", "p", "g"}, 1)  c == SumOver(e.cnt, {"c", "h"}, 1)  a == SumOver(e.cnt, {"a"}, 1) IN
  IF e.parsed # <<v, c, a>> THEN "powers of virtual, core and active are wrong"
  ELSE IF e.total # v + c + a THEN "total scaling is wrong"
  ELSE IF \E s \in ElemOf("g") \cup {"g", "h", "p"} : e.raw[s] # SumOver(e.cnt, {s}, 1) THEN "a label is not counted with its spin partner"
  ELSE "ok"
ShareCount(q, r, s) == Cardinality({i \in DOMAIN q : q[i][1] = s /\ q[i] \in SeqSet(r)})
SpaceCountVerdict(e) ==
  LET sp == IF e.it = "so" THEN LowerSpaces ELSE Spaces
      up == [i \in DOMAIN sp |-> ShareCount(e.u, e.l2, sp[i])]
      lo == [i \in DOMAIN sp |-> ShareCount(e.l, e.u2, sp[i])]
  IN  IF e.upper # up \/ e.lower # lo THEN "shared labels are counted wrongly"
      ELSE IF e.tu # lo \/ e.tl # up THEN "the transposed counter is not the exchange of upper and lower"
      ELSE "ok"

MyVerdict(e) ==
  IF e.exc # "" THEN "raised: " \o e.exc
  ELSE CASE e.ev = "order" -> OrderVerdict(e)
         [] e.ev = "canon" -> CanonVerdict(e)
         [] e.ev = "count" -> CountVerdict(e)
         [] e.ev = "perm" -> PermVerdict(e)
         [] e.ev = "ctor" -> CtorVerdict(e)
         [] e.ev = "down" -> DowngradeVerdict(e)
         [] e.ev = "find" -> FindVerdict(e)
         [] e.ev = "counter" -> CounterVerdict(e)
         [] e.ev = "spacecount" -> SpaceCountVerdict(e)
=============================================================================
