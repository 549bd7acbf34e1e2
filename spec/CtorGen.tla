------------------------------ MODULE CtorGen ------------------------------
(***************************************************************************)
(* Constructor calls with well-formed and malformed arguments.  A label is *)
(* [s, d, n]: first character, rest of the text, and the number the rest   *)
(* spells (-1: it spells none).                                            *)
(*                                                                         *)
(* Single objects are built label by label.  Terms are built from closed   *)
(* pairs of slots, so that they are well formed, and then changed a few    *)
(* times; a change may or may not break them.                              *)
(***************************************************************************)
EXTENDS Labels, Json
CONSTANTS Letters, Digits, Kinds, ITypes, Forms, TNames, MaxRow, MaxFactors, Mutations
VARIABLES k, it, form, n, u, l, fs, coef, phase, muts, want
vars == <<k, it, form, n, u, l, fs, coef, phase, muts, want>>
Labs == {[s |-> a, d |-> b[1], n |-> b[2]] : a \in Letters, b \in Digits}
Zero == [s |-> "", d |-> "", n |-> -1]   \* an empty slot
Init == /\ k \in Kinds /\ it \in ITypes /\ form \in Forms /\ n \in TNames
        /\ u = <<>> /\ l = <<>> /\ fs = <<>> /\ coef = "one" /\ muts = 0
        /\ want \in (0..MaxRow) \X (0..MaxRow)        \* lengths of the rows of a single object
        /\ (k = "index" => want = <<1, 0>>) /\ (k = "indices" => want[2] = 0) /\ (k = "term" => want = <<0, 0>>)
        /\ phase = IF k = "term" THEN "factors" ELSE "row"
\* ---------------------------------------------------------------- single objects
AddU(x) == phase = "row" /\ Len(u) < want[1] /\ u' = Append(u, x) /\ UNCHANGED <<k, it, form, n, l, fs, coef, phase, muts, want>>
AddL(x) == phase = "row" /\ Len(u) = want[1] /\ Len(l) < want[2] /\ l' = Append(l, x) /\ UNCHANGED <<k, it, form, n, u, fs, coef, phase, muts, want>>
EndRow == phase = "row" /\ <<Len(u), Len(l)>> = want /\ phase' = "done" /\ UNCHANGED <<k, it, form, n, u, l, fs, coef, muts, want>>
\* ---------------------------------------------------------------- terms
Good == {x \in Labs : Valid(x.s) /\ x.n >= 0 /\ (it = "so" => ~IsBeta(x.s))}
Ranks(nm) == IF nm \in {"K", "C"} THEN {1} ELSE {1, 2}
AddF(nm) == /\ phase = "factors" /\ Len(fs) < MaxFactors
            /\ \E r \in Ranks(nm) : fs' = Append(fs, [n |-> nm, it |-> it, u |-> [i \in 1..r |-> Zero], l |-> [i \in 1..r |-> Zero]])
            /\ UNCHANGED <<k, it, form, n, u, l, coef, phase, muts, want>>
AddOp(r1, r2) == /\ phase = "factors" /\ Len(fs) >= 1
                 /\ fs' = Append(fs, [n |-> "O", it |-> it, u |-> [i \in 1..r1 |-> Zero], l |-> [i \in 1..r2 |-> Zero]])
                 /\ phase' = "join" /\ UNCHANGED <<k, it, form, n, u, l, coef, muts, want>>
Slots == {<<j, r, i>> : j \in DOMAIN fs, r \in {1, 2}, i \in 1..MaxRow}
Row(x) == IF x[2] = 1 THEN fs[x[1]].u ELSE fs[x[1]].l
Real == {x \in Slots : x[3] \in DOMAIN Row(x)}
Free == {x \in Real : Row(x)[x[3]] = Zero}
Filled == {x \in Real : Row(x)[x[3]] # Zero}
SlotLess(x, y) == x[1] < y[1] \/ (x[1] = y[1] /\ (x[2] < y[2] \/ (x[2] = y[2] /\ x[3] < y[3])))
First(S) == CHOOSE x \in S : \A y \in S : y = x \/ SlotLess(x, y)
Put(g, x, v) == IF x[2] = 1 THEN [g EXCEPT ![x[1]].u[x[3]] = v] ELSE [g EXCEPT ![x[1]].l[x[3]] = v]
Used == {<<Row(x)[x[3]].s, Row(x)[x[3]].n>> : x \in Filled}
Join(x) == /\ phase = "join" /\ Cardinality(Free) > 1 /\ <<x.s, x.n>> \notin Used
           /\ LET a == First(Free) IN \E b \in Free \ {a} : (a[1] # b[1] \/ a[2] # b[2]) /\ fs' = Put(Put(fs, a, x), b, x)
           /\ UNCHANGED <<k, it, form, n, u, l, coef, phase, muts, want>>
\* slots that cannot be joined are dropped
Drop(q) == SelectSeq(q, LAMBDA x : x # Zero)
EndJoin(c) == /\ phase = "join" /\ (Cardinality(Free) <= 1 \/ \A a, b \in Free : a[1] = b[1] /\ a[2] = b[2])
              /\ fs' = [i \in DOMAIN fs |-> [fs[i] EXCEPT !.u = Drop(@), !.l = Drop(@)]]
              /\ coef' = c /\ phase' = "mutate" /\ UNCHANGED <<k, it, form, n, u, l, muts, want>>
\* the last slot takes an index that stands above and below on one factor already
EndDiag(c) == /\ phase = "join" /\ Cardinality(Free) = 1
              /\ \E a, b \in Filled : a[1] = b[1] /\ a[2] = 1 /\ b[2] = 2 /\ Row(a)[a[3]] = Row(b)[b[3]] /\ fs' = Put(fs, First(Free), Row(a)[a[3]])
              /\ coef' = c /\ phase' = "mutate" /\ UNCHANGED <<k, it, form, n, u, l, muts, want>>
Step == phase = "mutate" /\ muts < Mutations /\ muts' = muts + 1 /\ UNCHANGED <<k, it, form, n, u, l, coef, phase, want>>
MSlot(x) == Step /\ \E a \in Real : fs' = Put(fs, a, x)
MCopy == Step /\ \E a, b \in Real : a # b /\ fs' = Put(fs, a, Row(b)[b[3]])
MSwap == Step /\ \E a, b \in Real : SlotLess(a, b) /\ fs' = Put(Put(fs, a, Row(b)[b[3]]), b, Row(a)[a[3]])
MDrop == Step /\ \E i \in DOMAIN fs : \/ fs[i].u # <<>> /\ fs' = [fs EXCEPT ![i].u = Tail(@)]
                                      \/ fs[i].l # <<>> /\ fs' = [fs EXCEPT ![i].l = Tail(@)]
MFactor == Step /\ Len(fs) > 1 /\ \E i \in 1..(Len(fs) - 1) : fs' = [j \in 1..(Len(fs) - 1) |-> IF j < i THEN fs[j] ELSE fs[j + 1]]
MTwice == Step /\ Len(fs) > 1 /\ Len(fs) <= MaxFactors /\ \E i \in 1..(Len(fs) - 1) : fs' = <<fs[i]>> \o fs
\* a delta or Hamiltonian with one index above and below (diagonal)
MDiag(x) == Step /\ Len(fs) <= MaxFactors /\ \E nm \in {"H", "K"} : fs' = <<[n |-> nm, it |-> it, u |-> <<x>>, l |-> <<x>>]>> \o fs
MKind == Step /\ \E i \in DOMAIN fs, t \in ITypes : fs' = [fs EXCEPT ![i].it = t]
MFlip == Step /\ \E i \in DOMAIN fs : fs' = [fs EXCEPT ![i].u = fs[i].l, ![i].l = fs[i].u]
Enough == phase = "mutate" /\ phase' = "done" /\ UNCHANGED <<k, it, form, n, u, l, fs, coef, muts, want>>
Next == \/ \E x \in Labs : AddU(x) \/ AddL(x)
        \/ EndRow
        \/ \E nm \in TNames : AddF(nm)
        \/ \E r1, r2 \in 0..2 : AddOp(r1, r2)
        \/ \E x \in Good : Join(x)
        \/ \E c \in {"one", "half", "int", "bad", "none"} : EndJoin(c) \/ EndDiag(c)
        \/ \E x \in Labs : MSlot(x) \/ MDiag(x)
        \/ MCopy \/ MSwap \/ MDrop \/ MFactor \/ MTwice \/ MKind \/ MFlip \/ Enough
Spec == Init /\ [][Next]_vars
Emit == phase = "done" => PrintT("GEN " \o ToJson([k |-> k, it |-> it, form |-> form, n |-> n, u |-> u, l |-> l, fs |-> fs, coef |-> coef,
                                                    coefok |-> coef \in {"one", "half", "int"}]))
LBad == {"g", "a", "A", "V", "x", "Z", "1"}
LGood == {"g", "p", "h", "v", "c", "a"}
LSpin == {"g", "G", "p", "P", "h", "H", "v", "V", "c", "C", "a", "A"}
LAmp == {"h", "p", "a", "c", "v", "C", "A"}
DBad == {<<"0", 0>>, <<"1", 1>>, <<"01", 1>>, <<"12", 12>>, <<"", -1>>, <<"x", -1>>, <<"-1", -1>>, <<"1.0", -1>>}
DGood == {<<"0", 0>>, <<"1", 1>>, <<"2", 2>>, <<"01", 1>>, <<"10", 10>>}
KObj == {"index", "indices", "op", "tensor"}
KBig == {"op", "tensor"}
KTen == {"tensor"}
KIdx == {"index"}
KTerm == {"term"}
IAll == {"so", "si", "sa", "asymm", "xx"}
IOk == {"so", "si", "sa"}
ISo == {"so"}
FAll == {"list", "str", "index", "tuple", "int", "set", "none"}
FOk == {"list", "str", "index", "tuple"}
FIdx == {"str", "int", "list", "none"}
FList == {"list"}
NAll == {"H", "T", "L", "K", "C", "X"}
NBad == {"H", "T", "L", "K", "C", "X", "Q"}
=============================================================================
