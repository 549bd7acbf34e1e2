------------------------------ MODULE OpsTrace ------------------------------
(***************************************************************************)
(* Operator constructors (C19).  A recorded term is [c, t, u, l]: rational *)
(* coefficient, tensors [n, u, l] and the operator's creators u and        *)
(* annihilators l, all as labels <<space, number>>.                        *)
(***************************************************************************)
EXTENDS Labels, TraceRun

Eq(r, n, d) == r[2] # 0 /\ r[1] * d = n * r[2]
NumberedFrom(s, k) == s..(s + k - 1)
\* one tensor times its operator: creators contract the row cre of the tensor, annihilators the row ann
Matched(x, cre, ann) == IsPerm(x.u, cre) /\ IsPerm(x.l, ann) /\ ParityBetween(x.u, cre) * ParityBetween(x.l, ann) = 1
AllIn(q, s) == \A i \in DOMAIN q : q[i][1] = s
Nums(q) == {q[i][2] : i \in DOMAIN q}
HamOK(x, e) ==
  /\ Len(x.t) = 1 /\ x.t[1].n = "H" /\ Len(x.u) = e.body /\ Len(x.l) = e.body
  /\ Matched(x, x.t[1].l, x.t[1].u)
  /\ AllIn(x.u, "g") /\ AllIn(x.l, "g")
  /\ Nums(x.u) \cup Nums(x.l) = NumberedFrom(e.start, 2 * e.body)
  /\ Eq(x.c, 1, Fact(e.body) * Fact(e.body))
AmpOK(x, body, start, exc, name, sn, sd, h, p) ==
  LET holes == x.t[1].u  parts == x.t[1].l IN
  /\ Len(x.t) = 1 /\ x.t[1].n = name /\ Len(holes) = body /\ Len(parts) = body
  /\ AllIn(holes, h) /\ AllIn(parts, p) /\ Nums(holes) = NumberedFrom(start, body) /\ Nums(parts) = NumberedFrom(start, body)
  /\ IF exc THEN Matched(x, parts, holes) ELSE Matched(x, holes, parts)
  /\ Eq(x.c, sn, sd * Fact(body) * Fact(body))
Sp(sr) == IF sr THEN {"c", "v"} ELSE {"c", "a", "v"}
Block(x) == <<[i \in DOMAIN x.u |-> x.u[i][1]], [i \in DOMAIN x.l |-> x.l[i][1]]>>
SameCount(a, b, S) == \A s \in S : Cardinality({i \in DOMAIN a : a[i] = s}) = Cardinality({i \in DOMAIN b : b[i] = s})
TwoBlocks(S) == {b \in ([1..2 -> S]) \X ([1..2 -> S]) : SameCount(b[1], b[2], S)}
Elem(x, d) == /\ Len(x.t) = 1 /\ x.t[1].n = "H" /\ Eq(x.c, 1, d)
              \* the Hamiltonian is Hermitian: either row may contract the creators
              /\ (Matched(x, x.t[1].l, x.t[1].u) \/ Matched(x, x.t[1].u, x.t[1].l))
              /\ Cardinality(SeqSet(x.u) \cup SeqSet(x.l)) = Len(x.u) + Len(x.l)
\* the recorded terms have exactly the blocks B, each once
ExactlyBlocks(out, I, B) == {Block(out[i]) : i \in I} = B /\ Cardinality(I) = Cardinality(B)
OneBody(out) == {i \in DOMAIN out : Len(out[i].u) = 1}
TwoBody(out) == {i \in DOMAIN out : Len(out[i].u) = 2}
DiagOK(out, sr) == /\ \A i \in OneBody(out) : Elem(out[i], 1)
                   /\ ExactlyBlocks(out, OneBody(out), {<<(<<s>>), (<<s>>)>> : s \in Sp(sr)})
FockOK(e) == DiagOK(e.out, e.sr) /\ Len(e.out) = Cardinality(OneBody(e.out))
DyallOK(e) == DiagOK(e.out, FALSE) /\ Len(e.out) = Cardinality(OneBody(e.out)) + 1
              /\ Cardinality(TwoBody(e.out)) = 1 /\ \A i \in TwoBody(e.out) : Elem(e.out[i], 4) /\ Block(e.out[i]) = << <<"a", "a">>, <<"a", "a">> >>
FinkOK(e) == DiagOK(e.out, e.sr) /\ Len(e.out) = Cardinality(OneBody(e.out)) + Cardinality(TwoBody(e.out))
             /\ (\A i \in TwoBody(e.out) : Elem(e.out[i], 4)) /\ ExactlyBlocks(e.out, TwoBody(e.out), TwoBlocks(Sp(e.sr)))
\* list of cluster operators: as many excitations of body k as k occurs in levels, and as many negative de-excitations
ListOK(e) ==
  LET h == IF e.sr THEN "c" ELSE "h"  p == IF e.sr THEN "v" ELSE "p"
      Ex(i, b) == AmpOK(e.out[i], b, e.start, TRUE, "T", 1, 1, h, p)
      De(i, b) == AmpOK(e.out[i], b, e.start, FALSE, "T", -1, 1, h, p)
      Times(b) == Cardinality({i \in DOMAIN e.levels : e.levels[i] = b})
  IN /\ Len(e.out) = (IF e.unitary THEN 2 ELSE 1) * Len(e.levels)
     /\ \A b \in SeqSet(e.levels) : /\ Cardinality({i \in DOMAIN e.out : Ex(i, b)}) = Times(b)
                                    /\ e.unitary => Cardinality({i \in DOMAIN e.out : De(i, b)}) = Times(b)
OpsVerdict(e) ==
  CASE e.k = "ham" -> IF Len(e.out) = 1 /\ HamOK(e.out[1], e) THEN "ok" ELSE "not the Hamiltonian of the given rank"
    [] e.k = "amp" -> IF Len(e.out) = 1 /\ AmpOK(e.out[1], e.body, e.start, e.exc, e.name, e.scale[1], e.scale[2], e.hp[1], e.hp[2]) THEN "ok"
                      ELSE "not the requested cluster operator"
    [] e.k = "list" -> IF ListOK(e) THEN "ok" ELSE "not the requested list of cluster operators"
    [] e.k = "fock" -> IF FockOK(e) THEN "ok" ELSE "not the diagonal Fock operator"
    [] e.k = "dyall" -> IF DyallOK(e) THEN "ok" ELSE "not the Dyall Hamiltonian"
    [] e.k = "fink" -> IF FinkOK(e) THEN "ok" ELSE "not the Fink Hamiltonian"
MyVerdict(e) == IF e.exc_ # "" THEN "raised: " \o e.exc_ ELSE IF ~e.kindok THEN "the operator has another kind of indices" ELSE OpsVerdict(e)
=============================================================================
