-------------------------------- MODULE Den --------------------------------
(***************************************************************************)
(* Denotation of a term.                                                   *)
(*                                                                         *)
(* A term is a coefficient, a product of tensors and a normal-ordered      *)
(* operator, all indices summed.  Its meaning is fixed by choosing a       *)
(* finite set of orbitals and a value for every tensor element that obeys  *)
(* the symmetries and the space rules the tensors are defined to have.     *)
(* Values are taken in the field of integers modulo P, so that everything  *)
(* is exact.  The operator part is an arbitrary antisymmetric tensor of    *)
(* its own, so two terms with open operators are equal iff they are equal  *)
(* for every such probe.  An equality of terms that follows from the       *)
(* symmetries holds for every choice of values; one that does not is       *)
(* refuted by a random choice except with probability about 1/P.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

P == 46337                       \* prime, P*P < 2^31

Mul(a, b) == (a * b) % P
Add(a, b) == (a + b) % P
RECURSIVE Pow(_, _)
Pow(a, n) == IF n = 0 THEN 1
             ELSE LET h == Pow(a, n \div 2) IN
                  IF n % 2 = 0 THEN Mul(h, h) ELSE Mul(Mul(h, h), a)
Inv(a) == Pow(a % P, P - 2)
Rat(r) == Mul(r[1] % P, Inv(r[2]))      \* r = <<numerator, denominator>>; TLC's % is non-negative

\* ---------------------------------------------------------------- orbitals
\* model m = [c, a, v, both, seed]: numbers of core, active and virtual orbitals; orbital numbers
\* 1..N are alpha (or spinless), N+1..2N beta.  Lower-case labels range over the alpha set, upper-case
\* ones over the beta set; with both, lower-case labels range over both spins.
N(m) == m.c + m.a + m.v
NBeta(m, s) == Cardinality({i \in DOMAIN s : s[i] > N(m)})
Spatial(m, x) == IF x > N(m) THEN x - N(m) ELSE x
Beta(m, x) == x > N(m)
IsCore(m, x) == Spatial(m, x) <= m.c
IsVir(m, x) == Spatial(m, x) > m.c + m.a
IsAct(m, x) == ~IsCore(m, x) /\ ~IsVir(m, x)
Lower(s) == CASE s = "C" -> "c" [] s = "A" -> "a" [] s = "V" -> "v" [] s = "H" -> "h" [] s = "P" -> "p"
              [] s = "G" -> "g" [] OTHER -> s
LoOf(m, s) == CASE s \in {"c", "h", "g"} -> 1 [] s \in {"a", "p"} -> m.c + 1 [] s = "v" -> m.c + m.a + 1
HiOf(m, s) == CASE s = "c" -> m.c [] s \in {"h", "a"} -> m.c + m.a [] OTHER -> N(m)
Range(m, s) ==
  LET t == Lower(s)
      r == [i \in 1..(HiOf(m, t) - LoOf(m, t) + 1) |-> LoOf(m, t) + i - 1]
      b == [i \in DOMAIN r |-> r[i] + N(m)]
  IN  IF s # t THEN b ELSE IF m.both THEN r \o b ELSE r

\* ------------------------------------------------- symmetric random values
Mix(x, y) == (x * 2011 + y * 1777 + 101) % P
RECURSIVE MixSeq(_, _, _)
MixSeq(x, s, i) == IF i > Len(s) THEN x ELSE MixSeq(Mix(x, s[i]), s, i + 1)
Fin(x) == LET y == Mul(x, x) IN LET z == (Mul(y, x) + 7 * y + 3 * x + 11) % P IN Mul(z, z + 5)

NoRepeat(s) == \A i, j \in DOMAIN s : i < j => s[i] # s[j]
\* number of inversions of s
Inversions(s) == Cardinality({q \in (DOMAIN s) \X (DOMAIN s) : q[1] < q[2] /\ s[q[1]] > s[q[2]]})
Sgn(s) == IF Len(s) < 2 THEN 1
          ELSE IF Len(s) = 2 THEN (IF s[1] < s[2] THEN 1 ELSE P - 1)
          ELSE IF Inversions(s) % 2 = 0 THEN 1 ELSE P - 1
Sort2(s) == IF s[1] < s[2] THEN s ELSE <<s[2], s[1]>>
Sorted(s) == IF Len(s) < 2 THEN s
             ELSE IF Len(s) = 2 THEN Sort2(s)
             ELSE SortSeq(s, <)
RECURSIVE LexLE(_, _, _)
LexLE(a, b, i) == IF i > Len(a) THEN TRUE
                  ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LexLE(a, b, i + 1)

Base(name) == CASE name = "H" -> 3 [] name = "T" -> 5 [] name = "L" -> 7 [] name = "O" -> 11
                [] name = "R" -> 13 [] name = "V" -> 17 [] name = "S" -> 19 [] OTHER -> 23

\* antisymmetric in u, antisymmetric in l; Hermitian when herm; conserves spin when cons
Anti(m, name, herm, cons, u, l) ==
  IF ~NoRepeat(u) \/ ~NoRepeat(l) THEN 0
  ELSE IF cons /\ NBeta(m, u) # NBeta(m, l) THEN 0
  ELSE LET su == Sorted(u)  sl == Sorted(l)
           swap == herm /\ Len(u) = Len(l) /\ ~LexLE(su, sl, 1)
           a == IF swap THEN sl ELSE su
           b == IF swap THEN su ELSE sl
           v == Fin(MixSeq(Mix(MixSeq(Mix(Base(name) + 31 * m.seed, Len(u)), a, 1), 29), b, 1))
       IN  Mul(v, Mul(Sgn(u), Sgn(l)))

\* options o = [herm, act0, pr]: Hermitian tensors; all-active amplitudes vanish; projection of the open operator
\* projections: all, ddca (at most c core and v virtual orbitals, sr: none active),
\* exc (creators particle, annihilators hole; sr: virtual and core), diag (both in one elementary space and of one spin; sr: not active)
Elem(m, x) == IF IsCore(m, x) THEN 1 ELSE IF IsAct(m, x) THEN 2 ELSE 3
CountIn(m, q, e) == Cardinality({i \in DOMAIN q : Elem(m, q[i]) = e})
Proj(m, pr, u, l) ==
  CASE pr.k = "all" -> TRUE
    [] pr.k = "cons" -> NBeta(m, u) = NBeta(m, l)
    [] pr.k = "ddca" -> /\ CountIn(m, u \o l, 1) <= pr.c /\ CountIn(m, u \o l, 3) <= pr.v
                        /\ (pr.sr => CountIn(m, u \o l, 2) = 0)
    [] pr.k = "exc" -> /\ \A i \in DOMAIN u : Elem(m, u[i]) = 3 \/ (~pr.sr /\ Elem(m, u[i]) = 2)
                       /\ \A i \in DOMAIN l : Elem(m, l[i]) = 1 \/ (~pr.sr /\ Elem(m, l[i]) = 2)
    [] pr.k = "diag" -> Elem(m, u[1]) = Elem(m, l[1]) /\ Beta(m, u[1]) = Beta(m, l[1]) /\ (pr.sr => Elem(m, u[1]) # 2)
Delta(u, l) == IF u[1] = l[1] THEN 1 ELSE 0
\* ------------------------------------------------- spin-free singlet tensors
\* o.sp = "free": spin-free tensors, symmetric under permutations of their columns (upper, lower);
\* o.sp = "singlet": spin tensors made of them by antisymmetrizing over columns of matching spin
ColLT(x, y) == x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2])
Cols(u, l) ==
  IF Len(u) = 1 THEN << <<u[1], l[1]>> >>
  ELSE IF Len(u) = 2 THEN (IF ColLT(<<u[1], l[1]>>, <<u[2], l[2]>>) THEN << <<u[1], l[1]>>, <<u[2], l[2]>> >>
                           ELSE << <<u[2], l[2]>>, <<u[1], l[1]>> >>)
  ELSE SortSeq([i \in DOMAIN u |-> <<u[i], l[i]>>], ColLT)
RECURSIVE ColsLE(_, _, _)
ColsLE(a, b, i) == IF i > Len(a) THEN TRUE
                   ELSE IF a[i] # b[i] THEN ColLT(a[i], b[i]) ELSE ColsLE(a, b, i + 1)
RECURSIVE MixCols(_, _, _)
MixCols(x, q, i) == IF i > Len(q) THEN x ELSE MixCols(Mix(Mix(x, q[i][1]), q[i][2]), q, i + 1)
FreeVal(m, name, herm, u, l) ==
  LET p == Cols(u, l)  q == Cols(l, u)
  IN  Fin(MixCols(Mix(Base(name) + 31 * m.seed, 97 + Len(u)), IF herm /\ ~ColsLE(p, q, 1) THEN q ELSE p, 1))
\* permutations of 1..n, the even ones first
PermSeq(n) == CASE n = 1 -> << <<1>> >>
                [] n = 2 -> << <<1, 2>>, <<2, 1>> >>
                [] n = 3 -> << <<1, 2, 3>>, <<2, 3, 1>>, <<3, 1, 2>>, <<2, 1, 3>>, <<1, 3, 2>>, <<3, 2, 1>> >>
                [] OTHER -> << <<>> >>
RECURSIVE SumPerm(_, _, _, _, _, _, _)
SumPerm(m, name, herm, u, l, ps, k) ==
  IF k > Len(ps) THEN 0
  ELSE LET p == ps[k]
           here == IF \A i \in DOMAIN u : (u[i] > N(m)) = (l[p[i]] > N(m))
                   THEN LET v == FreeVal(m, name, herm, [i \in DOMAIN u |-> Spatial(m, u[i])],
                                            [i \in DOMAIN u |-> Spatial(m, l[p[i]])])
                        IN  IF k <= Len(ps) \div 2 \/ k = 1 THEN v ELSE (P - v) % P
                   ELSE 0
       IN  Add(here, SumPerm(m, name, herm, u, l, ps, k + 1))
Singlet(m, o, name, herm, u, l) ==
  IF o.sp = "free" THEN FreeVal(m, name, herm, u, l)
  ELSE IF ~NoRepeat(u) \/ ~NoRepeat(l) \/ NBeta(m, u) # NBeta(m, l) THEN 0
  ELSE SumPerm(m, name, herm, u, l, PermSeq(Len(u)), 1)
AllIn(m, u, l) == (\A i \in DOMAIN u : IsAct(m, u[i])) /\ (\A i \in DOMAIN l : IsAct(m, l[i]))
SVal(m, o, name, u, l) ==
  CASE name = "K" -> Delta(u, l)
    [] name = "L" /\ Len(u) = 1 ->
         IF IsVir(m, u[1]) \/ IsVir(m, l[1]) THEN 0
         ELSE IF IsCore(m, u[1]) \/ IsCore(m, l[1]) THEN Delta(u, l)
         ELSE Singlet(m, o, "L", TRUE, u, l)
    [] name = "L" /\ Len(u) # 1 -> IF AllIn(m, u, l) THEN Singlet(m, o, "L", TRUE, u, l) ELSE 0
    [] name \in {"T", "S"} -> IF o.act0 /\ AllIn(m, u, l) THEN 0 ELSE Singlet(m, o, name, o.herm, u, l)
    [] name = "C" -> Singlet(m, o, "C", TRUE, u, l)
    [] name = "O" -> Singlet(m, o, "O", FALSE, u, l)
    [] OTHER -> Singlet(m, o, name, o.herm, u, l)

\* a probe without any symmetry, summed over the views o.v = << <<coefficient, upper positions, lower positions>> >>
Free(m, u, l) == Fin(MixSeq(Mix(MixSeq(Mix(211 + 31 * m.seed, Len(u)), u, 1), 29), l, 1))
RECURSIVE ViewSum(_, _, _, _)
ViewSum(m, vs, x, k) ==
  IF k > Len(vs) THEN 0
  ELSE Add(Mul(vs[k][1], Free(m, [i \in DOMAIN vs[k][2] |-> x[vs[k][2][i]]], [i \in DOMAIN vs[k][3] |-> x[vs[k][3][i]]])),
           ViewSum(m, vs, x, k + 1))

Val(m, o, name, u, l) ==
  CASE name = "Q" -> ViewSum(m, o.v, u, 1)
    [] o.sp # "so" -> SVal(m, o, name, u, l)
    [] name = "K" -> Delta(u, l)
    [] name = "L" /\ Len(u) = 1 /\ Len(l) = 1 ->
         IF IsVir(m, u[1]) \/ IsVir(m, l[1]) THEN 0
         ELSE IF IsCore(m, u[1]) \/ IsCore(m, l[1]) THEN Delta(u, l)
         ELSE Anti(m, "L", TRUE, TRUE, u, l)
    [] name = "C" ->
         IF IsCore(m, u[1]) \/ IsCore(m, l[1]) THEN 0
         ELSE IF IsVir(m, u[1]) \/ IsVir(m, l[1]) THEN Delta(u, l)
         ELSE (Delta(u, l) + P - Anti(m, "L", TRUE, TRUE, u, l)) % P
    [] name = "L" /\ Len(u) # 1 ->
         IF \E i \in DOMAIN u : ~IsAct(m, u[i]) THEN 0
         ELSE IF \E i \in DOMAIN l : ~IsAct(m, l[i]) THEN 0
         ELSE Anti(m, "L", TRUE, TRUE, u, l)
    [] name \in {"T", "S"} ->
         IF o.act0 /\ (\A i \in DOMAIN u : IsAct(m, u[i])) /\ (\A i \in DOMAIN l : IsAct(m, l[i])) THEN 0
         ELSE Anti(m, name, o.herm, TRUE, u, l)
    [] name = "O" -> IF Proj(m, o.pr, u, l) THEN Anti(m, "O", FALSE, FALSE, u, l) ELSE 0
    [] OTHER -> Anti(m, name, o.herm, TRUE, u, l)

\* ------------------------------------------------------------- term value
\* term t = [c |-> <<num,den>>, s |-> spaces of indices 1..n,
\*           f |-> sequence of factors [n |-> name, u |-> indices, l |-> indices, k |-> last index]]
\* factors are sorted by k, the largest index occurring in them (0 for none)
At(env, is) == [i \in DOMAIN is |-> env[is[i]]]

RECURSIVE Prod(_, _, _, _, _, _)
\* product of the factors fs[i..] completed at depth k, and where the rest starts
Prod(m, o, fs, i, k, env) ==
  IF i > Len(fs) THEN <<1, i>>
  ELSE IF fs[i].k > k THEN <<1, i>>
  ELSE LET v == Val(m, o, fs[i].n, At(env, fs[i].u), At(env, fs[i].l)) IN
       IF v = 0 THEN <<0, i>>
       ELSE LET r == Prod(m, o, fs, i + 1, k, env) IN <<Mul(v, r[1]), r[2]>>

RECURSIVE SumIdx(_, _, _, _, _, _)
RECURSIVE SumOrb(_, _, _, _, _, _, _, _)
SumIdx(m, o, t, k, i, env) ==
  IF k > Len(t.s) THEN 1 ELSE SumOrb(m, o, t, k, i, env, Range(m, t.s[k]), 1)
SumOrb(m, o, t, k, i, env, r, x) ==
  IF x > Len(r) THEN 0
  ELSE LET e == Append(env, r[x])
           q == Prod(m, o, t.f, i, k, e)
           here == IF q[1] = 0 THEN 0 ELSE Mul(q[1], SumIdx(m, o, t, k + 1, q[2], e))
       IN  Add(here, SumOrb(m, o, t, k, i, env, r, x + 1))

Den(m, o, t) ==
  LET pre == Prod(m, o, t.f, 1, 0, <<>>) IN   \* factors without indices
  IF t.c[1] = 0 THEN 0 ELSE Mul(Mul(Rat(t.c), pre[1]), SumIdx(m, o, t, 1, pre[2], <<>>))

RECURSIVE DenSum(_, _, _, _)
\* total value of the terms ts[i..]
DenSum(m, o, ts, i) == IF i > Len(ts) THEN 0 ELSE Add(Den(m, o, ts[i]), DenSum(m, o, ts, i + 1))

\* ------------------------------------------------------------- structure
Occ(t, i) == Cardinality({<<j, k>> \in {<<j, k>> : j \in DOMAIN t.f, k \in 1..12} : k <= Len(t.f[j].u) /\ t.f[j].u[k] = i})
           + Cardinality({<<j, k>> \in {<<j, k>> : j \in DOMAIN t.f, k \in 1..12} : k <= Len(t.f[j].l) /\ t.f[j].l[k] = i})
\* every index occurs exactly twice
WellFormed(t) == \A i \in DOMAIN t.s : Occ(t, i) = 2
=============================================================================
