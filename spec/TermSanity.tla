----------------------------- MODULE TermSanity -----------------------------
(***************************************************************************)
(* The specification of terms checked against itself: the rewrites of      *)
(* TermGen, which say when two terms are equivalent, do not change the     *)
(* value given by Den; a term with an automorphism that reverses its sign  *)
(* (Symm) has the value zero; the value is antisymmetric in the rows of    *)
(* the open operator.                                                      *)
(***************************************************************************)
EXTENDS TermGenM
CONSTANTS NC, NA, NV, Act0
D == INSTANCE Symm
Mdl == [c |-> NC, a |-> NA, v |-> NV, both |-> FALSE, seed |-> 1]
Opt == [herm |-> Herm, act0 |-> Act0, pr |-> [k |-> "all"], sp |-> "so"]
MaxId(q) == IF q = <<>> THEN 0 ELSE CHOOSE x \in {q[i] : i \in DOMAIN q} : \A i \in DOMAIN q : q[i] <= x
FacOf(g) == [n |-> g.n, u |-> g.u, l |-> g.l, k |-> MaxId(g.u \o g.l)]
ByK(a, b) == a.k < b.k
TermOf(t) == [c |-> t.c, s |-> t.s,
              f |-> SortSeq([i \in DOMAIN t.f |-> FacOf(t.f[i])], ByK)]
Now == [f |-> f, s |-> s, c |-> c]
\* a small enough number of assignments
Small == Len(s) <= 6
Rewritten == (phase = "done" /\ Small) => D!Den(Mdl, Opt, TermOf(orig)) = D!Den(Mdl, Opt, TermOf(Now))
Structure == phase = "done" => D!WellFormed(TermOf(Now))
Vanishes == (phase = "done" /\ Small /\ D!VanishesBySymmetry(Herm, TermOf(Now))) => D!Den(Mdl, Opt, TermOf(Now)) = 0
\* the converse: no symmetry, no vanishing (up to an accident of the random values or of too few orbitals)
Faithful == (phase = "done" /\ Small /\ D!Den(Mdl, Opt, TermOf(Now)) = 0) => D!VanishesBySymmetry(Herm, TermOf(Now))
=============================================================================
