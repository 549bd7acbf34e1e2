------------------------------ MODULE TermGen ------------------------------
(***************************************************************************)
(* Behaviours that build a well-formed term: factors and an open operator  *)
(* are chosen, then their slots are joined in pairs, each pair receiving a *)
(* space label allowed by both slots; then a sequence of value-preserving  *)
(* rewrites is applied.  Terminal states are printed and replayed.         *)
(*                                                                         *)
(* A factor is [n |-> name, u |-> slots, l |-> slots]; the operator is the *)
(* factor named "O".  slot value 0 means not yet joined.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Kinds,        \* sequence of factor kinds <<name, rank, direction>>
          OpRanks,      \* set of ranks <<creators, annihilators>> of the open operator
          Labels,       \* set of space labels to draw from
          MaxFactors, MinFactors, MaxSlots, Rewrites, Coeffs,
          KLinks,       \* allow Kronecker factors joined to the open operator
          LLinks,       \* allow cumulants joined to the open operator
          Spin,         \* give every index a spin (beta labels are the upper-case ones)
          Herm,         \* exchange of upper and lower indices is one of the rewrites
          ExcOp         \* the open operator creates virtuals and annihilates core orbitals

VARIABLES f, s, phase, c, orig, flips
vars == <<f, s, phase, c, orig, flips>>

Zeros(n) == [i \in 1..n |-> 0]
Slots(fs) == {<<j, r, k>> : j \in DOMAIN fs, r \in {1, 2}, k \in 1..4}
SlotOf(fs, x) == IF x[2] = 1 THEN fs[x[1]].u ELSE fs[x[1]].l
Real(fs) == {x \in Slots(fs) : x[3] <= Len(SlotOf(fs, x))}
Free(fs) == {x \in Real(fs) : SlotOf(fs, x)[x[3]] = 0}
RECURSIVE NSlots(_, _)
NSlots(fs, i) == IF i > Len(fs) THEN 0 ELSE Len(fs[i].u) + Len(fs[i].l) + NSlots(fs, i + 1)

SlotLess(x, y) == x[1] < y[1] \/ (x[1] = y[1] /\ (x[2] < y[2] \/ (x[2] = y[2] /\ x[3] < y[3])))
First(S) == CHOOSE x \in S : \A y \in S : y = x \/ SlotLess(x, y)

Hole == {"h", "c", "a"}
Part == {"p", "v", "a"}
\* labels a slot accepts; d = 1 excitation amplitude (upper holes), 2 de-excitation
Accept(fs, x) ==
  LET g == fs[x[1]] IN
  CASE g.n \in {"T", "S"} -> IF (g.d = 1) = (x[2] = 1) THEN Hole ELSE Part
    [] g.n = "L" /\ Len(g.u) > 1 -> {"a", "h", "p", "g"}
    [] g.n = "L" /\ Len(g.u) = 1 -> {"a", "h", "p", "g", "c"}
    [] g.n = "C" -> {"a", "h", "p", "g", "v"}
    [] g.n = "O" /\ ExcOp -> IF x[2] = 1 THEN {"v"} ELSE {"c"}
    [] OTHER -> {"g", "p", "h", "v", "c", "a"}
Dens(n) == n \in {"K", "L", "C"}
\* may slots x and y carry the same index?
Joinable(fs, x, y) ==
  /\ x[1] # y[1]                                                 \* no diagonal indices
  /\ Dens(fs[x[1]].n) /\ Dens(fs[y[1]].n) => Len(fs[x[1]].u) > 1 /\ Len(fs[y[1]].u) > 1   \* densities not linked
  /\ (fs[x[1]].n = "K" => (KLinks \/ fs[y[1]].n # "O"))
  /\ (fs[y[1]].n = "K" => (KLinks \/ fs[x[1]].n # "O"))
  /\ (fs[x[1]].n \in {"L", "C"} => (LLinks \/ fs[y[1]].n # "O"))
  /\ (fs[y[1]].n \in {"L", "C"} => (LLinks \/ fs[x[1]].n # "O"))

SpaceSet(q) == CASE q = "c" -> {"c"} [] q = "a" -> {"a"} [] q = "v" -> {"v"}
                 [] q = "h" -> {"c", "a"} [] q = "p" -> {"a", "v"} [] q = "g" -> {"c", "a", "v"}
\* densities and deltas that can be nonzero
DensOK(g) ==
  CASE g.n = "K" -> SpaceSet(s[g.u[1]]) \cap SpaceSet(s[g.l[1]]) # {}
    [] g.n = "L" /\ Len(g.u) = 1 -> SpaceSet(s[g.u[1]]) \cap SpaceSet(s[g.l[1]]) \cap {"c", "a"} # {}
    [] g.n = "C" -> SpaceSet(s[g.u[1]]) \cap SpaceSet(s[g.l[1]]) \cap {"a", "v"} # {}
    [] OTHER -> TRUE

Init == f = <<>> /\ s = <<>> /\ phase = "factors" /\ c = <<1, 1>> /\ orig = <<>> /\ flips = 0

AddFactor(i) == /\ phase = "factors" /\ Len(f) < MaxFactors
                /\ NSlots(f, 1) + 2 * Kinds[i][2] <= MaxSlots
                /\ f' = Append(f, [n |-> Kinds[i][1], u |-> Zeros(Kinds[i][2]), l |-> Zeros(Kinds[i][2]), d |-> Kinds[i][3]])
                /\ UNCHANGED <<s, phase, c, orig, flips>>
AddOp(r, k) ==  /\ phase = "factors" /\ Len(f) >= MinFactors
                /\ \E i \in DOMAIN f : ~Dens(f[i].n)
                /\ (NSlots(f, 1) + r[1] + r[2]) % 2 = 0
                /\ NSlots(f, 1) + r[1] + r[2] <= MaxSlots
                /\ f' = Append(f, [n |-> "O", u |-> Zeros(r[1]), l |-> Zeros(r[2]), d |-> 0])
                /\ c' = k
                /\ phase' = "join"
                /\ UNCHANGED <<s, orig, flips>>
Put(fs, x, v) == IF x[2] = 1 THEN [fs EXCEPT ![x[1]].u[x[3]] = v] ELSE [fs EXCEPT ![x[1]].l[x[3]] = v]
Join(q) == /\ phase = "join" /\ Free(f) # {}
           /\ LET x == First(Free(f)) IN
              \E y \in Free(f) \ {x} :
                 /\ Joinable(f, x, y)
                 /\ q \in Accept(f, x) \cap Accept(f, y) \cap Labels
                 /\ f' = Put(Put(f, x, Len(s) + 1), y, Len(s) + 1)
           /\ s' = Append(s, q)
           /\ UNCHANGED <<phase, c, orig, flips>>
Joined == /\ phase = "join" /\ Free(f) = {}
          /\ \A i \in DOMAIN f : DensOK(f[i])
          /\ phase' = "spin"
          /\ UNCHANGED <<f, s, c, flips, orig>>
Upper(q) == CASE q = "c" -> "C" [] q = "a" -> "A" [] q = "v" -> "V" [] q = "h" -> "H" [] q = "p" -> "P" [] q = "g" -> "G"
NB(S, is) == Cardinality({i \in DOMAIN is : is[i] \in S})
\* S: the indices of beta spin; every tensor conserves spin
SetSpin == /\ phase = "spin"
           /\ \E S \in (IF Spin THEN SUBSET (DOMAIN s) ELSE {{}}) :
                /\ \A i \in DOMAIN f : f[i].n # "O" => NB(S, f[i].u) = NB(S, f[i].l)
                /\ s' = [i \in DOMAIN s |-> IF i \in S THEN Upper(s[i]) ELSE s[i]]
           /\ phase' = "rewrite"
           /\ orig' = [f |-> f, s |-> s', c |-> c]
           /\ UNCHANGED <<f, c, flips>>

\* ------------------------------------------------ value-preserving rewrites
Neg(r) == <<-r[1], r[2]>>
SwapAt(q, i, j) == [q EXCEPT ![i] = q[j], ![j] = q[i]]
Step == flips < Rewrites /\ phase = "rewrite" /\ flips' = flips + 1
SwapUpper == /\ Step /\ \E i \in DOMAIN f : \E a, b \in DOMAIN f[i].u :
                 a < b /\ f' = [f EXCEPT ![i].u = SwapAt(@, a, b)]
             /\ c' = Neg(c) /\ UNCHANGED <<s, phase, orig>>
SwapLower == /\ Step /\ \E i \in DOMAIN f : \E a, b \in DOMAIN f[i].l :
                 a < b /\ f' = [f EXCEPT ![i].l = SwapAt(@, a, b)]
             /\ c' = Neg(c) /\ UNCHANGED <<s, phase, orig>>
SwapFactors == /\ Step /\ \E i, j \in 1..(Len(f) - 1) : i < j /\ f' = SwapAt(f, i, j)
               /\ UNCHANGED <<s, phase, c, orig>>
\* Hermiticity of Hamiltonian, amplitudes, cumulants (and the symmetry of delta)
Conj == /\ Step /\ Herm /\ \E i \in DOMAIN f : f[i].n # "O" /\ f' = [f EXCEPT ![i].u = f[i].l, ![i].l = f[i].u, ![i].d = 3 - f[i].d]
        /\ UNCHANGED <<s, phase, c, orig>>
\* exchange the names of two summed indices of the same space
Rename == /\ Step /\ \E a, b \in DOMAIN s : a < b /\ s[a] = s[b] /\
               LET r(x) == IF x = a THEN b ELSE IF x = b THEN a ELSE x IN
               f' = [i \in DOMAIN f |-> [f[i] EXCEPT !.u = [k \in DOMAIN @ |-> r(@[k])], !.l = [k \in DOMAIN @ |-> r(@[k])]]]
          /\ UNCHANGED <<s, phase, c, orig>>
Done == /\ phase = "rewrite" /\ flips = Rewrites /\ phase' = "done" /\ UNCHANGED <<f, s, c, orig, flips>>
\* a term whose rewrites are all disabled is emitted as it is
Stuck == /\ phase = "rewrite" /\ flips < Rewrites /\ flips' = Rewrites /\ UNCHANGED <<f, s, phase, c, orig>>

Next == (\E i \in DOMAIN Kinds : AddFactor(i)) \/ (\E r \in OpRanks, k \in Coeffs : AddOp(r, k))
        \/ (\E q \in Labels : Join(q)) \/ Joined \/ SetSpin
        \/ SwapUpper \/ SwapLower \/ SwapFactors \/ Conj \/ Rename \/ Stuck \/ Done
Spec == Init /\ [][Next]_vars

Emit == phase = "done" => PrintT("GEN " \o ToJson([a |-> orig, b |-> [f |-> f, s |-> s, c |-> c]]))
=============================================================================
