-------------------------------- MODULE Fock --------------------------------
(***************************************************************************)
(* Validation of Wick.tla from first principles.  Operators act on a Fock  *)
(* space of few orbitals; the reference is a superposition of determinants *)
(* in which the core is filled and the virtuals are empty.  Densities are  *)
(* expectation values, cumulants and normal ordering are defined from them *)
(* by inverting the expansion of a string (creators left of annihilators); *)
(* nothing here refers to products of normal-ordered operators.  Theorem   *)
(* then compares the action of such a product between arbitrary vectors    *)
(* with the sum over the contractions enumerated by Wick.tla, including    *)
(* their signs and open operators; Commutes compares a commutator with the *)
(* connected contractions.  Values in the field of integers modulo P.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
W == INSTANCE Wick
D == INSTANCE Den

CONSTANTS NCore, NAct, NVir, NElec,     \* NElec active electrons
          Ranks, NOps, MaxMicro, Labels

P == D!P
Mul(a, b) == (a * b) % P
Add(a, b) == (a + b) % P
Orbs == 1..(NCore + NAct + NVir)
Core == 1..NCore
Acts == (NCore + 1)..(NCore + NAct)
Elem(x) == IF x \in Core THEN "c" ELSE IF x \in Acts THEN "a" ELSE "v"

\* ------------------------------------------------------------ vectors
Dets == SUBSET Orbs
RECURSIVE Code(_, _)
Code(S, h) == IF S = {} THEN h ELSE LET x == W!Min(S) IN Code(S \ {x}, D!Mix(h, x))
Amp(S, k) == D!Fin(Code(S, 100 + 31 * k))
Ref0 == [S \in {Core \cup A : A \in {A \in SUBSET Acts : Cardinality(A) = NElec}} |-> Amp(S, 0)]
Bra == [S \in Dets |-> Amp(S, 1)]
Ket == [S \in Dets |-> Amp(S, 2)]

\* string q = << <<creator?, orbital>>, ... >> applied to determinant S from the right end: <<sign, S'>> or <<0, {}>>
RECURSIVE Act(_, _, _)
Act(q, i, S) ==
  IF i = 0 THEN <<1, S>>
  ELSE LET x == q[i][2]
           ph == IF Cardinality({y \in S : y < x}) % 2 = 0 THEN 1 ELSE P - 1
       IN  IF q[i][1] = (x \in S) THEN <<0, {}>>
           ELSE LET r == Act(q, i - 1, IF q[i][1] THEN S \cup {x} ELSE S \ {x})
                IN  <<Mul(ph, r[1]), r[2]>>
\* <b| q |k> for vectors with domains of determinants
RECURSIVE Over(_, _, _, _)
Over(q, b, k, Ss) ==
  IF Ss = {} THEN 0
  ELSE LET S == CHOOSE S \in Ss : TRUE
           r == Act(q, Len(q), S)
           v == IF r[1] = 0 \/ r[2] \notin DOMAIN b THEN 0 ELSE Mul(r[1], Mul(b[r[2]], k[S]))
       IN  Add(v, Over(q, b, k, Ss \ {S}))
Elt(q, b, k) == Over(q, b, k, DOMAIN k)
Norm == Elt(<<>>, Ref0, Ref0)
Exp(q) == Mul(Elt(q, Ref0, Ref0), D!Inv(Norm))

\* ------------------------------------------------------------ cumulants and normal ordering
\* rows u, l of orbitals: the string a+_u1 .. a+_un a_lm .. a_l1
Str(u, l) == [i \in DOMAIN u |-> <<TRUE, u[i]>>] \o [i \in DOMAIN l |-> <<FALSE, l[Len(l) + 1 - i]>>]

\* ways to contract inside one string of k creators and j annihilators: sets of disjoint blocks <<U, L>> of equal sizes
Blocks(k, j) == {b \in (SUBSET (1..k)) \X (SUBSET (1..j)) : b[1] # {} /\ Cardinality(b[1]) = Cardinality(b[2])}
RECURSIVE Inner(_, _)
Inner(B, Us) ==      \* Us: creators still to be decided
  IF Us = {} THEN {{}}
  ELSE LET x == W!Min(Us) IN
       Inner(B, Us \ {x}) \cup
       UNION {{c \cup {b} : c \in {c \in Inner(B, Us \ b[1]) : \A d \in c : d[2] \cap b[2] = {}}} :
              b \in {b \in B : x \in b[1] /\ b[1] \subseteq Us /\ W!Min(b[1]) = x}}
Asc(S) == W!SetToSeqAsc(S)
PosL(j, k, y) == k + j + 1 - y           \* place of annihilator y in the string
BlockOrder(k, j, b) == Asc(b[1]) \o W!Rev([i \in 1..Cardinality(b[2]) |-> PosL(j, k, Asc(b[2])[i])])
RECURSIVE BOrder(_, _, _, _)
BOrder(k, j, q, i) == IF i > Len(q) THEN <<>> ELSE BlockOrder(k, j, q[i]) \o BOrder(k, j, q, i + 1)
RestU(k, c) == (1..k) \ UNION {b[1] : b \in c}
RestL(j, c) == (1..j) \ UNION {b[2] : b \in c}
\* sign of a contraction inside a string
InSign(k, j, c) ==
  LET rl == Asc(RestL(j, c))
  IN  W!Parity(BOrder(k, j, W!SetSeq(c), 1) \o Asc(RestU(k, c)) \o W!Rev([i \in DOMAIN rl |-> PosL(j, k, rl[i])]))
Sg(x) == IF x = 1 THEN 1 ELSE P - 1

\* cumulants of sorted rows, rank by rank (tables are computed once)
SortedRows(k) == {Asc(S) : S \in {S \in SUBSET Orbs : Cardinality(S) = k}}
At(q, S) == LET t == Asc(S) IN [i \in DOMAIN t |-> q[t[i]]]
RECURSIVE ProdTab(_, _, _, _, _)
ProdTab(T, u, l, q, i) == IF i > Len(q) THEN 1
                          ELSE Mul(T[<<At(u, q[i][1]), At(l, q[i][2])>>], ProdTab(T, u, l, q, i + 1))
RECURSIVE SumC(_, _, _, _)
SumC(T, u, l, C) == IF C = {} THEN 0
                    ELSE LET c == CHOOSE c \in C : TRUE IN
                         Add(Mul(Sg(InSign(Len(u), Len(l), c)), ProdTab(T, u, l, W!SetSeq(c), 1)), SumC(T, u, l, C \ {c}))
Whole(k) == {c \in Inner(Blocks(k, k), 1..k) : RestU(k, c) = {} /\ Cardinality(c) > 1}
Whole2 == Whole(2)
Whole3 == Whole(3)
Whole4 == Whole(4)
Tab(T, k, C) == [x \in SortedRows(k) \X SortedRows(k) |-> (Exp(Str(x[1], x[2])) + P - SumC(T, x[1], x[2], C)) % P]
T1 == Tab(<<>>, 1, {})
T2 == T1 @@ Tab(T1, 2, Whole2)
T3 == T2 @@ Tab(T2, 3, Whole3)
T4 == IF MaxMicro < 8 THEN T3 ELSE T3 @@ Tab(T3, 4, Whole4)
\* cumulant of arbitrary rows of orbitals
Lam(u, l) == IF ~D!NoRepeat(u) \/ ~D!NoRepeat(l) THEN 0
             ELSE Mul(Mul(D!Sgn(u), D!Sgn(l)), T4[<<D!Sorted(u), D!Sorted(l)>>])
EtaV(x, y) == ((IF x = y THEN 1 ELSE 0) + P - Lam(<<x>>, <<y>>)) % P

\* the normal-ordered string as a combination of strings: << <<coefficient, string>>, ... >>
InnerAll == [k \in 0..4, j \in 0..4 |-> {c \in Inner(Blocks(k, j), 1..k) : c # {}}]
RECURSIVE ProdLam(_, _, _, _)
ProdLam(u, l, q, i) == IF i > Len(q) THEN 1 ELSE Mul(Lam(At(u, q[i][1]), At(l, q[i][2])), ProdLam(u, l, q, i + 1))
RECURSIVE NO(_, _)
RECURSIVE NOSub(_, _, _)
NO(u, l) == << <<1, Str(u, l)>> >> \o NOSub(u, l, InnerAll[Len(u), Len(l)])
Scale(f, q) == IF f = 0 THEN <<>> ELSE [i \in DOMAIN q |-> <<Mul(f, q[i][1]), q[i][2]>>]
NOSub(u, l, C) ==
  IF C = {} THEN <<>>
  ELSE LET c == CHOOSE c \in C : TRUE
           f == Mul(Sg(-InSign(Len(u), Len(l), c)), ProdLam(u, l, W!SetSeq(c), 1))
       IN  (IF f = 0 THEN <<>> ELSE Scale(f, NO(At(u, RestU(Len(u), c)), At(l, RestL(Len(l), c))))) \o NOSub(u, l, C \ {c})
RECURSIVE EltSum(_, _)
EltSum(q, i) == IF i > Len(q) THEN 0
                ELSE Add(IF q[i][1] = 0 THEN 0 ELSE Mul(q[i][1], Elt(q[i][2], Bra, Ket)), EltSum(q, i + 1))

\* ------------------------------------------------------------ products
\* operator: rows of <<label, orbital>>
Or(r) == [i \in DOMAIN r |-> r[i][2]]
Lb(r) == [i \in DOMAIN r |-> r[i][1]]
RECURSIVE Times(_, _, _)
Times(x, y, i) ==      \* product of two combinations
  IF i > Len(x) THEN <<>>
  ELSE [k \in DOMAIN y |-> <<Mul(x[i][1], y[k][1]), x[i][2] \o y[k][2]>>] \o Times(x, y, i + 1)
RECURSIVE Product(_, _)
Product(q, i) == IF i > Len(q) THEN << <<1, <<>> >> >> ELSE Times(NO(Or(q[i].u), Or(q[i].l)), Product(q, i + 1), 1)
Left(q) == EltSum(Product(q, 1), 1)

Ms(q) == W!Micros([i \in DOMAIN q |-> [u |-> Lb(q[i].u), l |-> Lb(q[i].l)]], 1)
RECURSIVE OrbOf(_, _)
OrbOf(q, i) == IF i > Len(q) THEN <<>> ELSE Or(q[i].u) \o W!Rev(Or(q[i].l)) \o OrbOf(q, i + 1)
EVal(ms, ob, e) ==
  LET u == At(ob, e[2])  l == At(ob, e[3])
  IN  CASE e[1] = "C" -> EtaV(u[1], l[1])
        [] e[1] = "K" -> IF u[1] = l[1] THEN 1 ELSE 0
        [] e[1] = "L" -> IF W!FromEta(ms, e) THEN (P - Lam(u, l)) % P ELSE Lam(u, l)
RECURSIVE CVal(_, _, _, _)
CVal(ms, ob, q, i) == IF i > Len(q) THEN 1 ELSE Mul(EVal(ms, ob, q[i]), CVal(ms, ob, q, i + 1))
RECURSIVE RightSum(_, _, _)
RightSum(ms, ob, S) ==
  IF S = {} THEN 0
  ELSE LET c == CHOOSE c \in S : TRUE
           q == W!SetSeq(c)
           v == Mul(Sg(W!ContractionSign(ms, q)), CVal(ms, ob, q, 1))
           w == IF v = 0 THEN 0 ELSE Mul(v, EltSum(NO(At(ob, {x \in W!Open(ms, c) : ms[x].cre}),
                                                   At(ob, {x \in W!Open(ms, c) : ~ms[x].cre})), 1))
       IN  Add(w, RightSum(ms, ob, S \ {c}))
Contr(q) == W!All(Ms(q), 0, 0, 99)
Right(q) == RightSum(Ms(q), OrbOf(q, 1), Contr(q))
RightX(q) == RightSum(Ms(q), OrbOf(q, 1), UNION {W!Expand(Ms(q), c) : c \in Contr(q)})
RightConn(q) == RightSum(Ms(q), OrbOf(q, 1), {c \in Contr(q) : W!Connected(Ms(q), c)})

\* ------------------------------------------------------------ the machine: build a product
VARIABLES ops, need, phase
vars == <<ops, need, phase>>
RECURSIVE Total(_, _)
Total(s, i) == IF i > Len(s) THEN 0 ELSE Len(s[i].u) + Len(s[i].l) + Total(s, i + 1)
Init == ops = <<>> /\ need = <<0, 0>> /\ phase = "build"
Start(r) == /\ phase = "build" /\ need = <<0, 0>> /\ Len(ops) < NOps /\ Total(ops, 1) + r[1] + r[2] <= MaxMicro
            /\ ops' = Append(ops, [u |-> <<>>, l |-> <<>>]) /\ need' = r /\ UNCHANGED phase
Fill(s, x) ==
  /\ phase = "build" /\ need # <<0, 0>> /\ Elem(x) \in W!SpaceSet(s)
  /\ LET n == Len(ops) IN
     IF need[1] > 0
     THEN /\ \A i \in DOMAIN ops[n].u : ops[n].u[i][2] # x
          /\ ops' = [ops EXCEPT ![n].u = Append(@, <<s, x>>)] /\ need' = <<need[1] - 1, need[2]>>
     ELSE /\ \A i \in DOMAIN ops[n].l : ops[n].l[i][2] # x
          /\ ops' = [ops EXCEPT ![n].l = Append(@, <<s, x>>)] /\ need' = <<0, need[2] - 1>>
  /\ UNCHANGED phase
Close == phase = "build" /\ need = <<0, 0>> /\ Len(ops) = NOps /\ phase' = "closed" /\ UNCHANGED <<ops, need>>
Finish == phase = "closed" /\ phase' = "done" /\ UNCHANGED <<ops, need>>
Next == (\E r \in Ranks : Start(r)) \/ (\E s \in Labels, x \in Orbs : Fill(s, x)) \/ Close \/ Finish
Spec == Init /\ [][Next]_vars

Done == phase = "done"
Theorem == Done => Left(ops) = Right(ops)
Expanded == Done => Left(ops) = RightX(ops)
Even(o) == (Len(o.u) + Len(o.l)) % 2 = 0
Sub(a, b) == (a + P - b) % P
Commutes ==
  (Done /\ \A i \in DOMAIN ops : Even(ops[i])) =>
    IF NOps = 2 THEN LET A == ops[1]  B == ops[2]
                     IN  Sub(Left(<<A, B>>), Left(<<B, A>>)) = Sub(RightConn(<<A, B>>), RightConn(<<B, A>>))
    ELSE NOps = 3 => LET A == ops[1]  B == ops[2]  C == ops[3]
                         F(X(_)) == Sub(Sub(X(<<A, B, C>>), X(<<B, A, C>>)), Sub(X(<<C, A, B>>), X(<<C, B, A>>)))
                     IN  F(Left) = F(RightConn)
\* not everything is zero
Witness == ~(Done /\ Left(ops) # 0)
NoHigher == \A x \in DOMAIN T4 : (Len(x[1]) > 1 /\ \E i \in DOMAIN x[1] : Elem(x[1][i]) # "a") => T4[x] = 0
\* the reference is correlated: cumulants of every rank in use are alive
Alive == \A k \in 2..(MaxMicro \div 2) : \E x \in DOMAIN T4 : Len(x[1]) = k /\ T4[x] # 0
ActLabels == {"a", "g", "h", "p"}
RkFew == {<<1, 1>>, <<2, 2>>, <<1, 0>>, <<0, 1>>, <<2, 1>>, <<1, 2>>}
RkOne == {<<1, 1>>}
RkTwo == {<<1, 1>>, <<2, 2>>}
AllLabels == {"c", "a", "v", "h", "p", "g"}
=============================================================================
