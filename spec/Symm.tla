-------------------------------- MODULE Symm --------------------------------
(***************************************************************************)
(* Permutation symmetry of a term.  An automorphism is a renaming of the   *)
(* summed indices within their spaces that reproduces the term up to the   *)
(* order of factors, the order of antisymmetric indices and, for Hermitian *)
(* tensors, the exchange of upper and lower ones.  A term vanishes by      *)
(* symmetry iff some automorphism reverses its sign.                       *)
(***************************************************************************)
EXTENDS Den

Ren(p, q) == [i \in DOMAIN q |-> p[q[i]]]
\* canonical form <<name, upper, lower>> and sign of one factor
FKey(herm, g, p) ==
  LET u == Ren(p, g.u)  l == Ren(p, g.l)
      su == Sorted(u)   sl == Sorted(l)
      swap == herm /\ g.n # "O" /\ Len(u) = Len(l) /\ ~LexLE(su, sl, 1)
  IN  IF swap THEN <<g.n, sl, su>> ELSE <<g.n, su, sl>>
FSgn(g, p) == (IF Inversions(Ren(p, g.u)) % 2 = 0 THEN 1 ELSE -1) * (IF Inversions(Ren(p, g.l)) % 2 = 0 THEN 1 ELSE -1)
RECURSIVE SgnProd(_, _, _)
SgnProd(fs, p, i) == IF i > Len(fs) THEN 1 ELSE FSgn(fs[i], p) * SgnProd(fs, p, i + 1)
KeyBag(herm, fs, p) ==
  LET ks == [i \in DOMAIN fs |-> FKey(herm, fs[i], p)] IN
  [k \in {ks[i] : i \in DOMAIN fs} |-> Cardinality({i \in DOMAIN fs : ks[i] = k})]
SpacePerms(s) == {p \in Permutations(DOMAIN s) : \A i \in DOMAIN s : s[p[i]] = s[i]}
VanishesBySymmetry(herm, t) ==
  LET id == [i \in DOMAIN t.s |-> i]
      b == KeyBag(herm, t.f, id)
      g == SgnProd(t.f, id, 1)
  IN  \E p \in SpacePerms(t.s) : KeyBag(herm, t.f, p) = b /\ SgnProd(t.f, p, 1) = -g
=============================================================================
