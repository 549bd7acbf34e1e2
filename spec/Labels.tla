------------------------------- MODULE Labels -------------------------------
(***************************************************************************)
(* Index labels <<space, number>>, index lists and orbital spaces.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

LowerSpaces == <<"g", "p", "h", "v", "c", "a">>
UpperSpaces == <<"G", "P", "H", "V", "C", "A">>
Spaces == LowerSpaces \o UpperSpaces
Valid(s) == \E i \in DOMAIN Spaces : Spaces[i] = s
Prio(s) == CHOOSE i \in DOMAIN Spaces : Spaces[i] = s
IsBeta(s) == \E i \in DOMAIN UpperSpaces : UpperSpaces[i] = s
ToLower(s) == IF IsBeta(s) THEN LowerSpaces[Prio(s) - 6] ELSE s
ToUpper(s) == IF IsBeta(s) THEN s ELSE UpperSpaces[Prio(s)]

\* the elementary spaces a lower-case label denotes
ElemOf(s) == CASE s = "c" -> {"c"} [] s = "a" -> {"a"} [] s = "v" -> {"v"}
               [] s = "h" -> {"c", "a"} [] s = "p" -> {"a", "v"} [] s = "g" -> {"c", "a", "v"}
\* with spin
Denotes(s) == IF IsBeta(s) THEN {ToUpper(x) : x \in ElemOf(ToLower(s))} ELSE ElemOf(s)

LabLess(x, y) == Prio(x[1]) < Prio(y[1]) \/ (Prio(x[1]) = Prio(y[1]) /\ x[2] < y[2])
LabLE(x, y) == x = y \/ LabLess(x, y)
Distinct(q) == \A i, j \in DOMAIN q : i < j => q[i] # q[j]
SeqSet(q) == {q[i] : i \in DOMAIN q}
NBetaOf(q) == Cardinality({i \in DOMAIN q : IsBeta(q[i][1])})
SortedLabels(q) == \A i \in 1..(Len(q) - 1) : LabLE(q[i], q[i + 1])
PosIn(q, x) == CHOOSE i \in DOMAIN q : q[i] = x
IsPerm(q, r) == Len(q) = Len(r) /\ SeqSet(q) = SeqSet(r) /\ Distinct(q)
\* number of pairs whose order in r differs from their order in q (q, r permutations of each other)
InvBetween(q, r) == Cardinality({p \in (DOMAIN r) \X (DOMAIN r) : p[1] < p[2] /\ PosIn(q, r[p[1]]) > PosIn(q, r[p[2]])})
ParityBetween(q, r) == IF InvBetween(q, r) % 2 = 0 THEN 1 ELSE -1
RECURSIVE Fact(_)
Fact(n) == IF n = 0 THEN 1 ELSE n * Fact(n - 1)
=============================================================================
