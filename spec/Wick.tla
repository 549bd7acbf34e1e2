-------------------------------- MODULE Wick --------------------------------
(***************************************************************************)
(* The generalized Wick theorem (Mukherjee and Kutzelnigg) for a product   *)
(* of normal-ordered operators, as a set and as a state machine.           *)
(*                                                                         *)
(* A product is a sequence of elementary operators ("micros") 1..M in the  *)
(* order in which they are written; micro m belongs to operator op[m], is  *)
(* a creator iff cre[m], and carries a space label sp[m].                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

SpaceSet(s) == CASE s = "c" -> {"c"} [] s = "a" -> {"a"} [] s = "v" -> {"v"}
                 [] s = "h" -> {"c", "a"} [] s = "p" -> {"a", "v"}
                 [] s = "g" -> {"c", "a", "v"}

Min(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxS(S) == CHOOSE x \in S : \A y \in S : x >= y

\* micros of a list of operators: creators in order, then annihilators reversed
RECURSIVE Micros(_, _)
Micros(ops, i) ==
  IF i > Len(ops) THEN <<>>
  ELSE [j \in 1..Len(ops[i].u) |-> [op |-> i, cre |-> TRUE, sp |-> ops[i].u[j]]]
       \o [j \in 1..Len(ops[i].l) |->
             [op |-> i, cre |-> FALSE, sp |-> ops[i].l[Len(ops[i].l) + 1 - j]]]
       \o Micros(ops, i + 1)

\* ------------------------------------------------- elementary contractions
\* pairwise: <a+ b> = gamma(a, b), needs a common occupied orbital
Gamma(ms, x, y) == /\ ms[x].cre /\ ~ms[y].cre /\ ms[x].op < ms[y].op
                   /\ SpaceSet(ms[x].sp) \cap SpaceSet(ms[y].sp) \cap {"c", "a"} # {}
\* <a b+> = eta(b, a), needs a common unoccupied orbital
Eta(ms, x, y) == /\ ~ms[x].cre /\ ms[y].cre /\ ms[x].op < ms[y].op
                 /\ SpaceSet(ms[x].sp) \cap SpaceSet(ms[y].sp) \cap {"a", "v"} # {}
Active(ms, x) == "a" \in SpaceSet(ms[x].sp)

\* an elementary contraction is <<kind, uppers, lowers>>
Pairs(ms) ==
  UNION {UNION {
      (IF Gamma(ms, x, y) THEN {<<"L", {x}, {y}>>} ELSE {}) \cup
      (IF Eta(ms, x, y) THEN {<<"C", {y}, {x}>>} ELSE {}) : y \in DOMAIN ms} : x \in DOMAIN ms}
RECURSIVE KSub(_, _)
KSub(S, k) == IF k = 0 THEN {{}}
              ELSE IF Cardinality(S) < k THEN {}
              ELSE LET x == Min(S) IN
                   {q \cup {x} : q \in KSub(S \ {x}, k - 1)} \cup KSub(S \ {x}, k)
Cumulants(ms, k) ==
  LET ups == {x \in DOMAIN ms : ms[x].cre /\ Active(ms, x)}
      los == {x \in DOMAIN ms : ~ms[x].cre /\ Active(ms, x)}
  IN  {e \in {<<"L", u, l>> : u \in KSub(ups, k), l \in KSub(los, k)} :
         Cardinality({ms[x].op : x \in e[2] \cup e[3]}) > 1}
MaxRank(ms, cu) ==
  LET nu == Cardinality({x \in DOMAIN ms : ms[x].cre /\ Active(ms, x)})
      nl == Cardinality({x \in DOMAIN ms : ~ms[x].cre /\ Active(ms, x)})
      top == IF nu < nl THEN nu ELSE nl
  IN  IF cu < 1 \/ cu > top THEN top ELSE cu       \* out-of-range limit: no limit
Elementary(ms, cu) == Pairs(ms) \cup UNION {Cumulants(ms, k) : k \in 2..MaxRank(ms, cu)}
Supp(e) == e[2] \cup e[3]

\* ------------------------------------------------- all contractions
\* sets of disjoint elementary contractions of the micros rem whose support size is within room
RECURSIVE Build(_, _, _)
Build(E, rem, room) ==
  IF rem = {} THEN {{}}
  ELSE LET x == Min(rem) IN
       Build(E, rem \ {x}, room) \cup
       UNION {{c \cup {e} : c \in Build(E, rem \ Supp(e), room - Cardinality(Supp(e)))} :
              e \in {e \in E : x \in Supp(e) /\ Supp(e) \subseteq rem /\ Cardinality(Supp(e)) <= room}}
RECURSIVE Contracted(_)
Contracted(c) == IF c = {} THEN 0 ELSE LET e == CHOOSE e \in c : TRUE IN Cardinality(Supp(e)) + Contracted(c \ {e})

All(ms, cu, lo, hi) ==
  LET M == Len(ms) IN
  IF M < lo THEN {}
  ELSE {c \in Build(Elementary(ms, cu), 1..M, M - lo) : M - Contracted(c) <= hi}

\* ------------------------------------------------- connectedness
OpsOf(ms, e) == {ms[x].op : x \in Supp(e)}
RECURSIVE Grow(_, _, _)
Grow(ms, c, S) == LET T == S \cup UNION {OpsOf(ms, e) : e \in {e \in c : OpsOf(ms, e) \cap S # {}}} IN
                  IF T = S THEN S ELSE Grow(ms, c, T)
Linked(ms, c) == Grow(ms, c, {1}) = {ms[x].op : x \in DOMAIN ms}
HasPair(c) == \E e \in c : Cardinality(e[2]) = 1
Connected(ms, c) == c # {} /\ HasPair(c) /\ Linked(ms, c)

\* ------------------------------------------------- known finding KF1
\* The implementation adds contractions ordered by (rank, operators of the creators, operators of the
\* annihilators) and requires each to touch the operators reached so far; with four or more operators
\* this loses connected contractions whose links, in that order, first form two islands.
RECURSIVE SetToSeqAsc(_)
SetToSeqAsc(S) == IF S = {} THEN <<>> ELSE LET x == Min(S) IN <<x>> \o SetToSeqAsc(S \ {x})
OpSeq(ms, S) == LET q == SetToSeqAsc(S) IN [i \in DOMAIN q |-> ms[q[i]].op]
Cat(ms, e) == OpSeq(ms, e[2]) \o SortSeq(OpSeq(ms, e[3]), <)
RECURSIVE SeqLess(_, _, _)
SeqLess(a, b, i) == IF Len(a) # Len(b) THEN Len(a) < Len(b)
                    ELSE IF i > Len(a) THEN FALSE
                    ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE SeqLess(a, b, i + 1)
RECURSIVE Reached(_, _, _)
Reached(ms, todo, S) ==
  IF todo = {} THEN TRUE
  ELSE LET e == CHOOSE e \in todo : \A f \in todo : ~SeqLess(Cat(ms, f), Cat(ms, e), 1) IN
       IF S # {} /\ OpsOf(ms, e) \cap S = {} THEN FALSE
       ELSE Reached(ms, todo \ {e}, S \cup OpsOf(ms, e))
LostByKF1(ms, c) == ~Reached(ms, c, {})

\* ------------------------------------------------- signs
RECURSIVE InvCount(_, _)
InvCount(s, i) == IF i > Len(s) THEN 0
                  ELSE Cardinality({j \in (i+1)..Len(s) : s[j] < s[i]}) + InvCount(s, i + 1)
Parity(s) == IF InvCount(s, 1) % 2 = 0 THEN 1 ELSE -1
Rev(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]

RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SetSeq(S \ {x})
\* the order in which the elementary contraction e takes its micros, and a whole contraction with the open operator
FromEta(ms, e) == Cardinality(e[2]) = 1 /\ ms[Min(e[3])].op < ms[Min(e[2])].op
EOrder(ms, e) == IF FromEta(ms, e) THEN SetToSeqAsc(e[3]) \o SetToSeqAsc(e[2])
                 ELSE SetToSeqAsc(e[2]) \o Rev(SetToSeqAsc(e[3]))
RECURSIVE COrder(_, _, _)
COrder(ms, q, i) == IF i > Len(q) THEN <<>> ELSE EOrder(ms, q[i]) \o COrder(ms, q, i + 1)
Open(ms, c) == DOMAIN ms \ UNION {Supp(e) : e \in c}
OpenU(ms, c) == SetToSeqAsc({x \in Open(ms, c) : ms[x].cre})
\* annihilators are written in reverse, so the row is read from the right
OpenL(ms, c) == SetToSeqAsc({x \in Open(ms, c) : ~ms[x].cre})
ContractionSign(ms, q) ==
  Parity(COrder(ms, q, 1) \o OpenU(ms, {q[i] : i \in DOMAIN q}) \o Rev(OpenL(ms, {q[i] : i \in DOMAIN q})))

\* ------------------------------------------------- expansion of hole densities
\* eta(u,l) = delta - gamma(u,l); gamma vanishes when either label is virtual
RECURSIVE Expand(_, _)
Expand(ms, c) ==
  IF \A e \in c : e[1] # "C" THEN {c}
  ELSE LET e == CHOOSE e \in c : e[1] = "C"
           x == CHOOSE x \in e[2] : TRUE
           y == CHOOSE y \in e[3] : TRUE
           d == {<<"K", e[2], e[3]>>}
           g == {<<"L", e[2], e[3]>>}
           rest == Expand(ms, c \ {e})
       IN  {q \cup d : q \in rest} \cup
           (IF ms[x].sp = "v" \/ ms[y].sp = "v" THEN {} ELSE {q \cup g : q \in rest})
=============================================================================
