------------------------------ MODULE PoolTrace ------------------------------
(***************************************************************************)
(* Recorded runs with a pool (C03).  e.ref and e.got are the results with  *)
(* one process and with the pool, as sorted sequences of <<key, value>>;   *)
(* e.pools are the pools that were used: workers, number of tasks, the     *)
(* sizes of the chunks and the order in which they completed.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TraceRun
SeqSet(q) == {q[i] : i \in DOMAIN q}
RECURSIVE Sum(_, _)
Sum(q, i) == IF i > Len(q) THEN 0 ELSE q[i] + Sum(q, i + 1)
\* the completion order is one of the pool machine
PoolOK(p) == /\ p.workers >= 1
             /\ SeqSet(p.order) = DOMAIN p.sizes /\ Len(p.order) = Len(p.sizes)
             /\ \A i \in DOMAIN p.order : p.order[i] <= i - 1 + p.workers
             /\ Sum(p.sizes, 1) = p.tasks /\ p.ran = p.tasks
PoolVerdict(e) ==
  IF \E i \in DOMAIN e.pools : ~PoolOK(e.pools[i]) THEN "the recorded pool is not a behaviour of the pool machine"
  ELSE IF Len(e.got) > Len(e.ref) THEN "more results with several processes than with one in " \o e.what
  ELSE IF Len(e.got) < Len(e.ref) THEN "fewer results with several processes than with one in " \o e.what
  ELSE IF e.got # e.ref THEN "different results with several processes than with one in " \o e.what
  ELSE "ok"
\* a stream of contractions in groups: e.counts[i] = how often contraction i was given, e.base[i] = <<key, value>> of its
\* canonical form, e.got = the result; values are numbers in units of 1/e.den
RECURSIVE Expect(_, _, _)
Expect(e, k, i) == IF i > Len(e.base) THEN 0 ELSE (IF e.base[i][1] = k THEN e.base[i][2] * e.counts[i] ELSE 0) + Expect(e, k, i + 1)
StreamVerdict(e) ==
  LET keys == {e.base[i][1] : i \in DOMAIN e.base}
      got == {e.got[i][1] : i \in DOMAIN e.got} IN
  IF \E i \in DOMAIN e.pools : ~PoolOK(e.pools[i]) THEN "the recorded pool is not a behaviour of the pool machine"
  ELSE IF Cardinality(got) # Len(e.got) THEN "a term is returned twice"
  ELSE IF ~(got \subseteq keys) THEN "a term that was not contracted is returned"
  ELSE IF \E i \in DOMAIN e.got : e.got[i][2] # Expect(e, e.got[i][1], 1) THEN "a contraction is lost or processed twice when batched"
  ELSE IF \E k \in keys \ got : Expect(e, k, 1) # 0 THEN "a contraction is lost when batched"
  ELSE "ok"
MyVerdict(e) == IF e.exc # "" THEN "raised in " \o e.what \o ": " \o e.exc
                ELSE IF e.ev = "stream" THEN StreamVerdict(e) ELSE PoolVerdict(e)
=============================================================================
