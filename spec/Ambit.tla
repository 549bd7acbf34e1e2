------------------------------- MODULE Ambit -------------------------------
(***************************************************************************)
(* A machine that executes tensor programs (the statements the library     *)
(* prints for ambit).  A state is a store of intermediates and targets,    *)
(* each a symbolic sum of contributions; a statement is a transition.      *)
(*                                                                         *)
(* statement  [op |-> "decl", t]                    declare an intermediate *)
(*            [op |-> "build", t, blk]              (re)build it, all zero  *)
(*            [op |-> "zero", t]                                            *)
(*            [op |-> "scale", t, c]                                        *)
(*            [op |-> "acc" or "set", t, li, sp, c, f]                      *)
(*                 t[li] += c * product of f; sp are the spaces of the      *)
(*                 statement's indices 1..n                                 *)
(*            [op |-> "call", fn, args]                                     *)
(* contribution [s, f, v]: spaces, factors, views v = << <<c, li>> >>       *)
(***************************************************************************)
EXTENDS Den

Spaces(q) == CASE q = "c" -> {"c"} [] q = "a" -> {"a"} [] q = "v" -> {"v"} [] q = "h" -> {"c", "a"} [] q = "p" -> {"a", "v"}
               [] q = "g" -> {"c", "a", "v"} [] q = "C" -> {"C"} [] q = "A" -> {"A"} [] q = "V" -> {"V"}
               [] q = "H" -> {"C", "A"} [] q = "P" -> {"A", "V"} [] q = "G" -> {"C", "A", "V"} [] OTHER -> {"?"}
AllLabels == {"c", "a", "v", "h", "p", "g", "C", "A", "V", "H", "P", "G"}
Meet(a, b) == IF a = b THEN a ELSE LET x == Spaces(a) \cap Spaces(b) IN
              IF x = {} THEN "none" ELSE CHOOSE q \in AllLabels : Spaces(q) = x


MaxOf(q) == IF q = <<>> THEN 0 ELSE CHOOSE x \in {q[i] : i \in DOMAIN q} : \A i \in DOMAIN q : q[i] <= x
PosIn(q, x) == CHOOSE i \in DOMAIN q : q[i] = x

\* add a contribution to a sum, joining it to one with the same factors
AddTo(sum, q) ==
  LET same == {i \in DOMAIN sum : sum[i].s = q.s /\ sum[i].f = q.f} IN
  IF same = {} THEN Append(sum, q) ELSE LET i == CHOOSE i \in same : TRUE IN [sum EXCEPT ![i].v = @ \o q.v]
RECURSIVE AddAll(_, _, _)
AddAll(sum, qs, i) == IF i > Len(qs) THEN sum ELSE AddAll(AddTo(sum, qs[i]), qs, i + 1)

\* views of one stored contribution read as t[R], renamed to the left side L, with label spaces sp
ReadOne(q, w, c, L, R, sp) ==
  LET s2 == [x \in DOMAIN q.s |-> IF \E j \in DOMAIN R : w[2][j] = x
                                  THEN LET j == CHOOSE j \in DOMAIN R : w[2][j] = x IN Meet(q.s[x], sp[R[j]])
                                  ELSE q.s[x]]
  IN  [s |-> s2, f |-> q.f, v |-> << <<Mul(c, w[1]), [i \in DOMAIN L |-> w[2][PosIn(R, L[i])]]>> >>]
RECURSIVE ReadViews(_, _, _, _, _, _)
ReadViews(q, k, c, L, R, sp) == IF k > Len(q.v) THEN <<>> ELSE <<ReadOne(q, q.v[k], c, L, R, sp)>> \o ReadViews(q, k + 1, c, L, R, sp)
RECURSIVE ReadAll(_, _, _, _, _, _)
ReadAll(sum, i, c, L, R, sp) == IF i > Len(sum) THEN <<>> ELSE ReadViews(sum[i], 1, c, L, R, sp) \o ReadAll(sum, i + 1, c, L, R, sp)

\* state: st.v store, st.b blocks (<<>> for no restriction), st.err
Err(st, msg) == IF st.err = "" THEN [st EXCEPT !.err = msg] ELSE st
InBlock(blk, labs) == blk = <<>> \/ (Len(blk) = Len(labs) /\ \A i \in DOMAIN labs : Spaces(labs[i]) \subseteq Spaces(blk[i]))
Labs(s, is) == [i \in DOMAIN is |-> s.sp[is[i]]]
Put(st, t, x) == [st EXCEPT !.v = (t :> x) @@ @]
\* names renamed by a call
Nm(ren, t) == IF t \in DOMAIN ren THEN ren[t] ELSE t

Contrib(st, ren, s) ==
  LET stored == {j \in DOMAIN s.f : Nm(ren, s.f[j].t) \in DOMAIN st.v}
      c == Rat(s.c)
  IN  IF stored = {}
      THEN << [s |-> s.sp,
               f |-> [j \in DOMAIN s.f |-> [n |-> s.f[j].n, u |-> s.f[j].u, l |-> s.f[j].l, k |-> MaxOf(s.f[j].u \o s.f[j].l)]],
               v |-> << <<c, s.li>> >>] >>
      ELSE ReadAll(st.v[Nm(ren, s.f[1].t)], 1, c, s.li, s.f[1].i, s.sp)

SameSet(a, b) == {a[i] : i \in DOMAIN a} = {b[i] : i \in DOMAIN b}
AccErr(st, ren, s) ==
  LET t == Nm(ren, s.t)
      stored == {j \in DOMAIN s.f : Nm(ren, s.f[j].t) \in DOMAIN st.v} IN
  IF t \notin DOMAIN st.v THEN "a tensor that was not declared is written: " \o t
  ELSE IF t \notin DOMAIN st.b THEN "a tensor is written before it is built: " \o t
  ELSE IF ~InBlock(st.b[t], Labs(s, s.li)) THEN "a tensor is written outside its block: " \o t
  ELSE IF \E j \in DOMAIN s.f : Len(s.f[j].i) # 2 * s.f[j].r THEN "wrong number of indices on a tensor"
  ELSE IF stored = {} THEN ""
  ELSE IF Len(s.f) # 1 THEN "product with an intermediate"
  ELSE LET w == Nm(ren, s.f[1].t) IN
       IF w \notin DOMAIN st.b THEN "an intermediate is read before it is built: " \o w
       ELSE IF ~InBlock(st.b[w], Labs(s, s.f[1].i)) THEN "an intermediate is read outside its block: " \o w
       ELSE IF ~SameSet(s.li, s.f[1].i) \/ Len(s.li) # Len(s.f[1].i) THEN "indices of the two sides differ"
       ELSE ""

\* scratch tensors that were inputs become part of the store when they are assigned
Touch(st, t) == IF t \in DOMAIN st.v THEN st ELSE [st EXCEPT !.v = (t :> <<>>) @@ @, !.b = (t :> <<>>) @@ @]

RECURSIVE Exec(_, _, _, _, _)
\* fns: defined functions [name, params, body]; ren: renaming of the current call
Exec(st, fns, ren, prog, i) ==
  IF i > Len(prog) \/ st.err # "" THEN st
  ELSE LET s == prog[i]
           nxt ==
    CASE s.op = "decl" -> IF s.t \in DOMAIN st.v THEN Err(st, "declared twice: " \o s.t)
                          ELSE [st EXCEPT !.v = (s.t :> <<>>) @@ @]
      [] s.op = "build" -> IF Nm(ren, s.t) \notin DOMAIN st.v THEN Err(st, "built without declaration: " \o s.t)
                           ELSE [st EXCEPT !.v = (Nm(ren, s.t) :> <<>>) @@ @, !.b = (Nm(ren, s.t) :> s.blk) @@ @]
      [] s.op = "zero" -> IF Nm(ren, s.t) \notin DOMAIN st.b THEN Err(st, "zeroed before it is built: " \o s.t)
                          ELSE Put(st, Nm(ren, s.t), <<>>)
      [] s.op = "scale" -> IF Nm(ren, s.t) \notin DOMAIN st.v THEN Err(st, "scaled without declaration: " \o s.t)
                           ELSE LET x == st.v[Nm(ren, s.t)]  c == IF s.c = <<0, 0>> THEN st.factor ELSE Rat(s.c) IN
                                Put(st, Nm(ren, s.t), [j \in DOMAIN x |-> [x[j] EXCEPT !.v = [k \in DOMAIN @ |-> <<Mul(c, @[k][1]), @[k][2]>>]]])
      [] s.op = "acc" -> LET e == AccErr(st, ren, s) IN
                         IF e # "" THEN Err(st, e)
                         ELSE Put(st, Nm(ren, s.t), AddAll(st.v[Nm(ren, s.t)], Contrib(st, ren, s), 1))
      [] s.op = "set" -> LET st2 == Touch(st, Nm(ren, s.t))
                             e == AccErr(st2, ren, s) IN
                         IF e # "" THEN Err(st, e)
                         ELSE IF \E j \in DOMAIN s.li : s.sp[s.li[j]] \notin {"g", "G"} /\ st2.b[Nm(ren, s.t)] = <<>>
                              THEN Err(st, "assignment to a part of a tensor")
                         ELSE IF Nm(ren, s.t) = Nm(ren, s.f[1].t) THEN Err(st, "assignment of a tensor to itself")
                         ELSE Put(st2, Nm(ren, s.t), AddAll(<<>>, Contrib(st, ren, s), 1))
      [] s.op = "call" ->
           LET ks == {k \in DOMAIN fns : fns[k].name = s.fn} IN
           IF Cardinality(ks) # 1 THEN Err(st, "called function is not defined exactly once: " \o s.fn)
           ELSE LET g == fns[CHOOSE k \in ks : TRUE] IN
                IF Len(g.params) # Len(s.args) THEN Err(st, "wrong number of arguments: " \o s.fn)
                ELSE LET r2 == [p \in {g.params[k] : k \in DOMAIN g.params} |-> s.args[PosIn(g.params, p)]]
                         \* local names of the callee start undeclared and vanish afterwards
                         st1 == Exec([st EXCEPT !.v = [x \in (DOMAIN @) \ {"temp"} |-> @[x]], !.b = [x \in (DOMAIN @) \ {"temp"} |-> @[x]]],
                                     fns, r2, g.body, 1)
                     IN  [st1 EXCEPT !.v = [x \in (DOMAIN @) \ {"temp"} |-> @[x]] @@ [x \in (DOMAIN st.v) \cap {"temp"} |-> st.v[x]],
                                     !.b = [x \in (DOMAIN @) \ {"temp"} |-> @[x]] @@ [x \in (DOMAIN st.b) \cap {"temp"} |-> st.b[x]]]
      [] OTHER -> Err(st, "unreadable statement")
       IN  Exec(nxt, fns, ren, prog, i + 1)

\* ------------------------------------------------- value of a target against a probe without symmetry
SortF(fs) == SortSeq(fs, LAMBDA x, y : x.k < y.k)
Id(n, k) == [i \in 1..n |-> k + i]
IsUp(q) == q \in {"C", "A", "V", "H", "P", "G"}
NUp(q, lo, hi) == Cardinality({i \in lo..hi : IsUp(q[i])})
RECURSIVE Fact(_)
Fact(n) == IF n < 2 THEN 1 ELSE n * Fact(n - 1)
\* 1 / (n_alpha! n_beta!) for each of the two rows: every operator string is counted that often in the full sum
Norm(q, na) ==
  LET n == Len(q)
      b1 == NUp(q, 1, na)
      b2 == NUp(q, na + 1, n)
  IN  Inv(Fact(na - b1) * Fact(b1) * Fact(n - na - b2) * Fact(b2))
\* na: number of leading positions that are annihilators
RECURSIVE StoreVal(_, _, _, _, _)
StoreVal(m, o, sum, i, na) ==
  IF i > Len(sum) THEN 0
  ELSE IF \E x \in DOMAIN sum[i].s : sum[i].s[x] = "none" THEN StoreVal(m, o, sum, i + 1, na)
  ELSE LET q == sum[i]
           base == q.v[1][2]
           n == Len(base)
           vs == [k \in DOMAIN q.v |-> LET pos == [j \in DOMAIN base |-> PosIn(base, q.v[k][2][j])]
                                           w == Norm([j \in 1..n |-> q.s[q.v[k][2][j]]], na) IN
                    <<Mul(q.v[k][1], w), [j \in 1..(n - na) |-> pos[na + j]], [j \in 1..na |-> pos[j]]>>]
           t == [c |-> <<1, 1>>, s |-> q.s, f |-> SortF(Append(q.f, [n |-> "Q", u |-> base, l |-> <<>>, k |-> MaxOf(base)]))]
       IN  Add(Den(m, [o EXCEPT !.v = vs], t), StoreVal(m, o, sum, i + 1, na))

\* ------------------------------------------------- value of terms against the antisymmetrized probe
\* permutations of positions lo+1..lo+n that keep the spin pattern of q, as <<sign, positions>>
RowPerms(q, lo, n) ==
  LET ps == IF n = 0 THEN << <<>> >> ELSE PermSeq(n)
      ok == {k \in DOMAIN ps : \A i \in 1..n : IsUp(q[lo + i]) = IsUp(q[lo + ps[k][i]])}
  IN  {<<IF k <= Len(ps) \div 2 \/ k = 1 THEN 1 ELSE P - 1, [i \in 1..n |-> lo + ps[k][i]]>> : k \in ok}
RECURSIVE SetToSeq(_)
SetToSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SetToSeq(S \ {x})
\* views of the antisymmetrizer for an operator whose positions 1..na are annihilators and whose label spaces are q
AntiViews(q, na) ==
  LET A == RowPerms(q, 0, na)  C == RowPerms(q, na, Len(q) - na)
      w == Inv(Cardinality(A) * Cardinality(C))
  IN  SetToSeq({<<Mul(w, Mul(x[1], y[1])), y[2], x[2]>> : x \in A, y \in C})
\* t has a factor Q whose upper indices are the annihilators and then the creators
TermVal(m, o, t, na) ==
  LET Q == t.f[CHOOSE i \in DOMAIN t.f : t.f[i].n = "Q"]
      q == [i \in DOMAIN Q.u |-> t.s[Q.u[i]]]
  IN  Den(m, [o EXCEPT !.v = AntiViews(q, na)], t)
=============================================================================
