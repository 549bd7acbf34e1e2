----------------------------- MODULE LatexTrace -----------------------------
(***************************************************************************)
(* Recorded LaTeX forms, read back.  A printed permutation operator        *)
(* P(i j / k) is the sum over the distinct distributions of its indices,   *)
(* each with its parity.                                                   *)
(***************************************************************************)
EXTENDS Ambit, TraceRun

SeqSet(q) == {q[i] : i \in DOMAIN q}
RECURSIVE Flat(_, _)
Flat(q, i) == IF i > Len(q) THEN <<>> ELSE q[i] \o Flat(q, i + 1)
\* positions lo+1..lo+n of a row
RowSet(lo, n) == {lo + i : i \in 1..n}
\* is the permutation operator p (a sequence of groups of positions) one of this row?
OfRow(p, lo, n) == SeqSet(Flat(p, 1)) = RowSet(lo, n) /\ Len(Flat(p, 1)) = n
\* arrangements of the row in which the members of each group keep their order
Keeps(p, a) == \A b \in DOMAIN p : \A i, j \in DOMAIN p[b] : i < j => PosIn(a, p[b][i]) < PosIn(a, p[b][j])
Arr(lo, n) == IF n = 0 THEN {<<1, <<>>>>}
              ELSE LET ps == PermSeq(n) IN
                   {<<IF k <= Len(ps) \div 2 \/ k = 1 THEN 1 ELSE P - 1, [i \in 1..n |-> lo + ps[k][i]]>> : k \in DOMAIN ps}
Shuffles(groups, lo, n) ==
  LET mine == {k \in DOMAIN groups : OfRow(groups[k], lo, n)} IN
  IF n < 2 \/ mine = {} THEN {x \in Arr(lo, n) : x[2] = [i \in 1..n |-> lo + i]}
  ELSE LET p == groups[CHOOSE k \in mine : TRUE] IN {x \in Arr(lo, n) : Keeps(p, x[2])}
GroupsOK(groups, na, nc) ==
  /\ \A k \in DOMAIN groups : OfRow(groups[k], 0, na) \/ OfRow(groups[k], na, nc)
  /\ \A j, k \in DOMAIN groups : j < k => SeqSet(Flat(groups[j], 1)) # SeqSet(Flat(groups[k], 1))
NShuf(groups, na, nc) == Cardinality(Shuffles(groups, 0, na)) * Cardinality(Shuffles(groups, na, nc))
Views(A, C, w) == SetToSeq({<<Mul(w, Mul(x[1], y[1])), y[2], x[2]>> : x \in A, y \in C})

QDen(m, o, t, vs) == Den(m, [o EXCEPT !.v = vs], t)
FullAnti(na, nc) == Views(Arr(0, na), Arr(na, nc), Inv(Cardinality(Arr(0, na)) * Cardinality(Arr(na, nc))))

TermVerdict(e) ==
  IF e.gflags # e.flags THEN "formatting options are not followed"
  ELSE IF e.graw # e.wraw THEN "tensors or operator are not printed as they are"
  ELSE IF ~GroupsOK(e.got.groups, e.got.na, e.got.nc) THEN "the permutation operator does not act on a row of the operator"
  ELSE IF ~e.perm /\ e.got.groups # <<>> THEN "a permutation operator is printed though not asked for"
  ELSE IF (IF e.perm THEN QDen(e.m, e.o, e.got.t, Views(Shuffles(e.got.groups, 0, e.got.na), Shuffles(e.got.groups, e.got.na, e.got.nc), 1))
           ELSE QDen(e.m, e.o, e.got.t, FullAnti(e.got.na, e.got.nc)))
          # QDen(e.m, e.o, e.want.t, FullAnti(e.want.na, e.want.nc))
       THEN "the printed form has another value: " \o e.what
  ELSE "ok"

PartVerdict(e) == IF e.got # e.want THEN "a tensor or operator is not printed as it is"
                  ELSE IF e.gflags # e.flags THEN "formatting options are not followed" ELSE "ok"

\* a row with a single group (or none) needs no permutation operator
Want(p, row) == IF Len(p) < 2 THEN {} ELSE {p}
RECURSIVE Multi(_, _)
Multi(p, i) == IF i > Len(p) THEN 1 ELSE Fact(Len(p[i])) * Multi(p, i + 1)
OpPermVerdict(e) ==
  IF e.op # <<e.cre, e.ann>> THEN "the operator is not printed as it is"
  ELSE IF SeqSet(e.groups) # Want(e.pc, e.cre) \cup Want(e.pa, e.ann) THEN "the permutation operator is not the given partition"
  ELSE IF e.n # (Fact(Len(e.cre)) \div Multi(e.pc, 1)) * (Fact(Len(e.ann)) \div Multi(e.pa, 1)) THEN "the number of permutations is wrong"
  ELSE "ok"

\* ------------------------------------------------------------ lists
Rows(e) == Flat(e.envs, 1)
\* printed coefficient times the number of permutations; tensors; operator
RowVal(r) == <<Mul(Rat(r.c), NShuf(r.groups, r.na, r.nc)), r.ts, r.op>>
WantVal(w) == <<Rat(w[1]), w[2], w[3]>>
Count(q, x) == Cardinality({i \in DOMAIN q : q[i] = x})
ListVerdict(e) ==
  LET rows == Rows(e) IN
  IF \E i \in DOMAIN rows : ~GroupsOK(rows[i].groups, rows[i].na, rows[i].nc) THEN "the permutation operator does not act on a row of the operator"
  ELSE LET got == [i \in DOMAIN rows |-> RowVal(rows[i])]
           want == [i \in DOMAIN e.want |-> WantVal(e.want[i])] IN
  IF Len(got) # Len(want) THEN "a term is missing or printed twice"
  ELSE IF \E i \in DOMAIN want : Count(got, want[i]) # Count(want, want[i]) THEN "the printed terms are not the given ones"
  ELSE IF \E k \in DOMAIN e.envs : \E i \in DOMAIN e.envs[k] : e.envs[k][i].flags # <<FALSE, TRUE, i # Len(e.envs[k])>>
       THEN "rows of the alignment are not separated"
  ELSE IF \E k \in DOMAIN e.envs : \E i, j \in DOMAIN e.envs[k] : e.envs[k][i].blk # e.envs[k][j].blk THEN "different blocks in one alignment"
  ELSE "ok"

MyVerdict(e) ==
  IF e.exc # "" THEN "raised: " \o e.exc
  ELSE IF e.bad # "" THEN "unreadable output: " \o e.bad
  ELSE CASE e.ev = "latex" -> TermVerdict(e)
         [] e.ev = "part" -> PartVerdict(e)
         [] e.ev = "opperm" -> OpPermVerdict(e)
         [] e.ev = "list" -> ListVerdict(e)
=============================================================================
