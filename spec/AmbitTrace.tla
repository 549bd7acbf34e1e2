---------------------------- MODULE AmbitTrace ----------------------------
(***************************************************************************)
(* Recorded programs: the text printed for a term or a list of terms, read *)
(* as statements and executed by the machine of Ambit.                     *)
(* e.terms: [t, na, tgt]; e.targets: [n, na, nc, old]; old: the target     *)
(* holds an arbitrary tensor before; keep: it must still be there after    *)
(***************************************************************************)
EXTENDS Ambit, TraceRun

\* an arbitrary antisymmetric content
OldContent(g) ==
  LET n == g.na + g.nc IN
  IF ~g.old THEN <<>>
  ELSE << [s |-> [i \in 1..n |-> "g"], f |-> << [n |-> "R", u |-> Id(g.nc, g.na), l |-> Id(g.na, 0), k |-> n] >>,
           v |-> << <<1, Id(n, 0)>> >>] >>
Store0(e) == [x \in {e.targets[i].n : i \in DOMAIN e.targets} |->
                OldContent(e.targets[CHOOSE i \in DOMAIN e.targets : e.targets[i].n = x])]
Init0(e) == [v |-> Store0(e), b |-> [x \in {e.targets[i].n : i \in DOMAIN e.targets} |-> <<>>], err |-> "", factor |-> Rat(e.factor)]

RECURSIVE WantSum(_, _, _, _, _)
WantSum(m, o, ts, tgt, i) ==
  IF i > Len(ts) THEN 0
  ELSE Add(IF ts[i].tgt = tgt THEN TermVal(m, o, ts[i].t, ts[i].na) ELSE 0, WantSum(m, o, ts, tgt, i + 1))

Known(e) == {e.targets[i].n : i \in DOMAIN e.targets}
AmbitVerdict(e) ==
  IF \E i \in DOMAIN e.terms : e.terms[i].tgt \notin Known(e) THEN "a target is missing"
  ELSE
  LET st0 == Init0(e)
      st == Exec([st0 EXCEPT !.v = IF e.temp THEN ("temp" :> <<>>) @@ @ ELSE @], e.fns, <<>>, e.prog, 1) IN
  IF st.err # "" THEN st.err
  ELSE IF \E i \in DOMAIN e.targets : LET g == e.targets[i] IN
            LET want == WantSum(e.m, e.o, e.terms, g.n, 1)
                conj == IF e.conj THEN WantSum(e.m, e.o, e.cterms, g.n, 1) ELSE 0
                old == IF e.keep THEN StoreVal(e.m, e.o, OldContent(g), 1, g.na) ELSE 0
            IN  Add(old, Mul(Rat(e.factor), Add(want, conj))) # StoreVal(e.m, e.o, st.v[g.n], 1, g.na)
       THEN "the program does not compute the terms: " \o e.what
  ELSE "ok"

\* the forms without permutations: the product of the full form alone, into the temporary or the target;
\* e.full the program with all permutations, e.bare the other, e.kind 1: building the temporary, 2: not building it,
\* 3: without a temporary
BareVerdict(e) ==
  LET accs == {i \in DOMAIN e.full : e.full[i].op = "acc"}
      main == e.full[CHOOSE i \in accs : \A j \in accs : i <= j]
      perm == \E i \in DOMAIN e.full : e.full[i].op = "build"
      want == IF ~perm THEN <<main>>
              ELSE IF e.kind = 1 THEN <<e.full[1], main>>
              ELSE IF e.kind = 2 THEN <<main>>
              ELSE <<[main EXCEPT !.t = e.tgt]>>
  IN  IF accs = {} THEN "nothing is computed"
      ELSE IF e.bare # want THEN "the form without permutations is not the product of the full form"
      ELSE "ok"

MyVerdict(e) ==
  IF e.exc # "" THEN "raised: " \o e.exc
  ELSE IF e.bad # "" THEN "unreadable output: " \o e.bad
  ELSE IF e.ev = "bare" THEN BareVerdict(e)
  ELSE AmbitVerdict(e)
=============================================================================
