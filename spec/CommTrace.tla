----------------------------- MODULE CommTrace -----------------------------
(***************************************************************************)
(* Products and commutators of terms (C07).  The meaning of a product is   *)
(* given by the Wick expansion of its operators (Wick) and the values of   *)
(* the tensors (Den):                                                      *)
(*   product p = [c, s, t, ops, cu, lo, hi, fc]                            *)
(* coefficient, spaces of the indices 1..n, tensors, operators (rows of    *)
(* indices), largest cumulant, window of open indices, connected only.     *)
(* A recorded call claims that the sum of the values of the products is    *)
(* the sum of the values of the returned terms.                            *)
(***************************************************************************)
EXTENDS Den, TraceRun
W == INSTANCE Wick

Sp(p, q) == [i \in DOMAIN q |-> p.s[q[i]]]
OpsSp(p) == [i \in DOMAIN p.ops |-> [u |-> Sp(p, p.ops[i].u), l |-> Sp(p, p.ops[i].l)]]
RECURSIVE Ids(_, _)
\* index of each micro, in writing order
Ids(ops, i) == IF i > Len(ops) THEN <<>> ELSE ops[i].u \o W!Rev(ops[i].l) \o Ids(ops, i + 1)

MaxId(q) == IF q = <<>> THEN 0 ELSE W!MaxS({q[i] : i \in DOMAIN q})
Fac(n, u, l) == [n |-> n, u |-> u, l |-> l, k |-> MaxId(u \o l)]
ByK(a, b) == a.k < b.k
\* the term of contraction c (sign included)
TermOf(p, ms, ids, c) ==
  LET q == W!SetSeq(c)
      ou == W!OpenU(ms, c)
      ol == W!OpenL(ms, c)
      sg == W!ContractionSign(ms, q)
      id(r) == [i \in DOMAIN r |-> ids[r[i]]]
      ds == [i \in DOMAIN q |-> Fac(q[i][1], id(W!SetToSeqAsc(q[i][2])), id(W!SetToSeqAsc(q[i][3])))]
      op == IF ou = <<>> /\ ol = <<>> THEN <<>> ELSE <<Fac("O", id(ou), id(ol))>>
  IN  [c |-> <<sg * p.c[1], p.c[2]>>, s |-> p.s, f |-> SortSeq(p.t \o ds \o op, ByK)]
RECURSIVE SumSeq(_, _, _, _, _, _, _)
SumSeq(m, o, p, ms, ids, q, i) ==
  IF i > Len(q) THEN 0 ELSE Add(Den(m, o, TermOf(p, ms, ids, q[i])), SumSeq(m, o, p, ms, ids, q, i + 1))
ProdVal(m, o, p) ==
  LET ms == W!Micros(OpsSp(p), 1)
      ids == Ids(p.ops, 1)
      all == W!All(ms, p.cu, p.lo, p.hi)
      S == IF p.fc THEN {c \in all : W!Connected(ms, c)} ELSE all
  IN  SumSeq(m, o, p, ms, ids, W!SetSeq(S), 1)
\* known finding KF2: what is left of a product when the contractions of KF1 are lost
KeptVal(m, o, p) ==
  LET ms == W!Micros(OpsSp(p), 1)
      ids == Ids(p.ops, 1)
      S == {c \in W!All(ms, p.cu, p.lo, p.hi) : W!Connected(ms, c) /\ ~W!LostByKF1(ms, c)}
  IN  SumSeq(m, o, p, ms, ids, W!SetSeq(S), 1)
RECURSIVE KeptSum(_, _, _, _)
KeptSum(m, o, ps, i) == IF i > Len(ps) THEN 0 ELSE Add(KeptVal(m, o, ps[i]), KeptSum(m, o, ps, i + 1))
RECURSIVE ProdSum(_, _, _, _)
ProdSum(m, o, ps, i) == IF i > Len(ps) THEN 0 ELSE Add(ProdVal(m, o, ps[i]), ProdSum(m, o, ps, i + 1))

Bad(t) == t.c[2] = 0
MyVerdict(e) ==
  IF e.exc # "" THEN "raised in " \o e.what \o ": " \o e.exc
  ELSE IF \E i \in DOMAIN e.after : Bad(e.after[i]) THEN "coefficient is not a finite rational of the expected size"
  ELSE IF \E i \in DOMAIN e.after : ~WellFormed(e.after[i]) THEN "result is not a well-formed term"
  ELSE IF ~e.win THEN "a returned term is outside the window of open indices in " \o e.what
  ELSE IF Add(ProdSum(e.m, e.o, e.prods, 1), DenSum(e.m, e.o, e.before, 1)) # DenSum(e.m, e.o, e.after, 1)
       THEN IF e.fc /\ (\A i \in DOMAIN e.prods : Len(e.prods[i].ops) >= 4)
                    /\ KeptSum(e.m, e.o, e.prods, 1) = DenSum(e.m, e.o, e.after, 1) THEN "KF2"
            ELSE "value is not the product in " \o e.what
  ELSE "ok"
=============================================================================
