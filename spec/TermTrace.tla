----------------------------- MODULE TermTrace -----------------------------
(***************************************************************************)
(* Recorded calls that turn terms into terms.                              *)
(***************************************************************************)
EXTENDS Den, TraceRun

Bad(t) == t.c[2] = 0
SeqSet(q) == {q[i] : i \in DOMAIN q}

\* ------------------------------------------------------------ combining
\* terms as <<key, coefficient>>; two terms differ only by coefficient iff their keys are equal
RECURSIVE SumOf(_, _, _)
SumOf(q, key, i) == IF i > Len(q) THEN 0
                    ELSE Add(IF q[i][1] = key THEN Rat(q[i][2]) ELSE 0, SumOf(q, key, i + 1))
Keys(q) == {q[i][1] : i \in DOMAIN q}
CombVerdict(e) ==
  IF \E i \in DOMAIN e.out : e.out[i][2][2] = 0 THEN "coefficient is not a finite rational of the expected size"
  ELSE IF Cardinality(Keys(e.out)) # Len(e.out) THEN "two returned terms differ only by their coefficient"
  ELSE IF \E i \in DOMAIN e.out : e.out[i][2][1] = 0 THEN "a zero term is returned"
  ELSE IF ~(Keys(e.out) \subseteq Keys(e.inp)) THEN "a term that was not given is returned"
  ELSE IF \E k \in Keys(e.inp) : SumOf(e.inp, k, 1) # SumOf(e.out, k, 1) THEN "the total changed"
  ELSE IF ~e.sorted THEN "result is not sorted"
  ELSE IF e.ref # <<>> /\ e.ref[1] # e.out THEN "result depends on the order or grouping of the input"
  ELSE "ok"

\* ------------------------------------------------------------ spin cases
Upper(q) == CASE q = "c" -> "C" [] q = "a" -> "A" [] q = "v" -> "V" [] q = "h" -> "H" [] q = "p" -> "P" [] q = "g" -> "G"
\* labels as <<space, number>>
WithSpin(q, S) == [i \in DOMAIN q |-> IF i \in S THEN <<Upper(q[i][1]), q[i][2]>> ELSE q[i]]
AllSpins(q, nb) == {WithSpin(q, S) : S \in {S \in SUBSET (DOMAIN q) : nb < 0 \/ Cardinality(S) = nb}}
PairSpins(u, l, cons) ==
  {<<WithSpin(u, S), WithSpin(l, R)>> : <<S, R>> \in
     {<<S, R>> \in (SUBSET (DOMAIN u)) \X (SUBSET (DOMAIN l)) : cons => Cardinality(S) = Cardinality(R)}}
SpinVerdict(e) ==
  LET want == IF e.kind = "list" THEN AllSpins(e.u, e.nb) ELSE PairSpins(e.u, e.l, e.cons)
  IN  IF Cardinality(SeqSet(e.out)) # Len(e.out) THEN "a spin case is generated twice"
      ELSE IF SeqSet(e.out) \ want # {} THEN "a spin case that does not belong is generated"
      ELSE IF want \ SeqSet(e.out) # {} THEN "a spin case is missing"
      ELSE IF ~e.same THEN "the name or kind of the tensor changed"
      ELSE "ok"

\* ------------------------------------------------------------ values
\* before: terms, valued in model m with options o; after: terms, valued in model m2 with options o2
ValueVerdict(e) ==
  IF \E i \in DOMAIN e.after : Bad(e.after[i]) THEN "coefficient is not a finite rational of the expected size"
  ELSE IF \E i \in DOMAIN e.after : ~WellFormed(e.after[i]) THEN "result is not a well-formed term"
  ELSE IF e.cnt >= 0 /\ Len(e.after) # e.cnt THEN "number of returned terms is wrong in " \o e.what
  ELSE IF Cardinality(SeqSet(e.blocks)) # Len(e.blocks) THEN "a block is returned twice by " \o e.what
  ELSE IF \E i \in DOMAIN e.blocks : \E j \in DOMAIN e.blocks[i] : e.blocks[i][j] \notin {"c", "a", "v", "C", "A", "V"}
       THEN "an open index is not elementary in " \o e.what
  ELSE IF ~e.flag THEN "labels or kind of the result are not as requested in " \o e.what
  ELSE IF DenSum(e.m, e.o, e.before, 1) # DenSum(e.m2, e.o2, e.after, 1) THEN "value changed by " \o e.what
  ELSE "ok"

\* ------------------------------------------------------------ singlet adaptation of one pair
\* labels of u and l are numbers, the beta ones in e.beta; out: <<sign, upper, lower>>
AdaptVerdict(e) ==
  LET n == Len(e.u)
      B == SeqSet(e.beta)
      want == {<<IF Inversions(p) % 2 = 0 THEN 1 ELSE -1, {<<e.u[i], e.l[p[i]]>> : i \in 1..n}>> :
                 p \in {p \in {PermSeq(n)[k] : k \in DOMAIN PermSeq(n)} : \A i \in 1..n : (e.u[i] \in B) = (e.l[p[i]] \in B)}}
      got == [k \in DOMAIN e.out |-> <<e.out[k][1], {<<e.out[k][2][i], e.out[k][3][i]>> : i \in DOMAIN e.out[k][2]}>>]
  IN  IF \E k \in DOMAIN e.out : Len(e.out[k][2]) # n \/ Len(e.out[k][3]) # n THEN "the rank changed"
      ELSE IF Cardinality(SeqSet(got)) # Len(got) THEN "a spin-free tensor is generated twice"
      ELSE IF SeqSet(got) # want THEN "the spin-free tensors are not the antisymmetrization over matching spins"
      ELSE "ok"

MyVerdict(e) ==
  IF e.exc # "" THEN "raised: " \o e.exc
  ELSE CASE e.ev = "combine" -> CombVerdict(e)
         [] e.ev = "spins" -> SpinVerdict(e)
         [] e.ev = "value" -> ValueVerdict(e)
         [] e.ev = "adapt" -> AdaptVerdict(e)
=============================================================================
