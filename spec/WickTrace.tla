----------------------------- MODULE WickTrace -----------------------------
(***************************************************************************)
(* Verdict on one recorded call of the contraction engine.                 *)
(* e.ops  operators as space labels, e.par parameters, e.res results:      *)
(*   [s |-> sign, d |-> densities [n, u, l], u, l |-> open operator]       *)
(* with micros numbered in writing order (0: a label that was not given).  *)
(***************************************************************************)
EXTENDS Wick, TraceRun

Rng(s) == {s[i] : i \in DOMAIN s}
KeyOf(r) == {<<d.n, Rng(d.u), Rng(d.l)>> : d \in Rng(r.d)}

\* the order into which the result reorders the micros, and its extra signs
DFromEta(ms, d) == Len(d.u) = 1 /\ Len(d.l) = 1 /\ ms[d.l[1]].op < ms[d.u[1]].op
RECURSIVE DOrder(_, _, _)
DOrder(ms, ds, i) == IF i > Len(ds) THEN <<>>
  ELSE (IF DFromEta(ms, ds[i]) THEN ds[i].l \o ds[i].u ELSE ds[i].u \o Rev(ds[i].l)) \o DOrder(ms, ds, i + 1)
Order(ms, r) == DOrder(ms, r.d, 1) \o r.u \o Rev(r.l)
NMinus(ms, r) == Cardinality({i \in DOMAIN r.d : r.d[i].n = "L" /\ DFromEta(ms, r.d[i])})
SignOf(ms, r) == Parity(Order(ms, r)) * (IF NMinus(ms, r) % 2 = 0 THEN 1 ELSE -1)

Used(r) == UNION {Rng(d.u) \cup Rng(d.l) : d \in Rng(r.d)}
Known(ms, r) == (Used(r) \cup Rng(r.u) \cup Rng(r.l)) \subseteq DOMAIN ms
OpenOK(ms, r) ==
  LET rest == DOMAIN ms \ Used(r) IN
  /\ Rng(r.u) = {x \in rest : ms[x].cre} /\ Rng(r.l) = {x \in rest : ~ms[x].cre}
  /\ Len(r.u) = Cardinality(Rng(r.u)) /\ Len(r.l) = Cardinality(Rng(r.l))

Expected(ms, p) ==
  LET a == All(ms, p.cu, p.lo, p.hi)
      b == IF p.fc THEN {c \in a : Connected(ms, c)} ELSE a
  IN  IF p.eh THEN UNION {Expand(ms, c) : c \in b} ELSE b

\* the contraction before expansion (to name known losses)
Unexpand(ms, c) == {IF e[1] = "K" \/ (Cardinality(e[2]) = 1 /\ ms[Min(e[3])].op < ms[Min(e[2])].op)
                    THEN <<"C", e[2], e[3]>> ELSE e : e \in c}

MyVerdict(e) ==
  LET ms == Micros(e.ops, 1)
      R == e.res
      keys == {KeyOf(R[i]) : i \in DOMAIN R}
      E == Expected(ms, e.par)
      miss == E \ keys
  IN  IF e.exc # "" THEN "raised: " \o e.exc
      ELSE IF \E i \in DOMAIN R : ~Known(ms, R[i]) THEN "label that was not in the input"
      ELSE IF \E i \in DOMAIN R : KeyOf(R[i]) \notin E THEN "contraction that is not in the Wick expansion"
      ELSE IF Cardinality(keys) # Len(R) THEN "contraction returned twice"
      ELSE IF \E i \in DOMAIN R : ~OpenOK(ms, R[i]) THEN "open operator is not the uncontracted operators"
      ELSE IF \E i \in DOMAIN R : R[i].s # SignOf(ms, R[i]) THEN "wrong sign"
      ELSE IF miss = {} THEN "ok"
      ELSE IF e.par.fc /\ Len(e.ops) >= 4 /\ (\A c \in miss : LostByKF1(ms, Unexpand(ms, c)))
           THEN "KF1" ELSE "contraction of the Wick expansion missing"
=============================================================================
