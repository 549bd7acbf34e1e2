----------------------------- MODULE ForteTrace -----------------------------
(***************************************************************************)
(* Recorded generated files: functions with parameters, executed from the  *)
(* main function by the machine of Ambit.                                  *)
(***************************************************************************)
EXTENDS AmbitTrace

SeqSet(q) == {q[i] : i \in DOMAIN q}
TypeOf(n) == IF n = "C0" THEN "double&" ELSE IF n = "factor" THEN "double" ELSE "BlockedTensor&"
ShapeErr(e) ==
  IF \E i, j \in DOMAIN e.defs : i # j /\ e.defs[i].name = e.defs[j].name THEN "a function is defined twice"
  ELSE IF \E i \in DOMAIN e.defs : Cardinality(SeqSet(e.defs[i].params)) # Len(e.defs[i].params) THEN "a parameter is repeated"
  ELSE IF \E i \in DOMAIN e.defs : \E k \in DOMAIN e.defs[i].types : e.defs[i].types[k][1] # TypeOf(e.defs[i].types[k][2])
       THEN "a parameter has the wrong type"
  ELSE IF SeqSet(e.decls) # {<<e.defs[i].name, e.defs[i].types>> : i \in DOMAIN e.defs} \/ Len(e.decls) # Len(e.defs)
       THEN "declarations do not match definitions"
  ELSE IF \E i \in DOMAIN e.defs : ~(SeqSet(e.defs[i].uses) \subseteq SeqSet(e.defs[i].params) \cup SeqSet(e.defs[i].locals))
       THEN "a function uses a tensor that is neither a parameter nor local"
  ELSE ""

\* targets that the function builds itself
Locals(e) == {"C3"}
T3Verdict(e) ==
  LET st == Exec([v |-> <<>>, b |-> <<>>, err |-> "", factor |-> 1], <<>>, <<>>, e.prog, 1) IN
  IF st.err # "" THEN st.err
  ELSE IF "C3" \notin DOMAIN st.v THEN "no new amplitudes"
  ELSE IF WantSum(e.m, e.o, e.terms, "C3", 1) # StoreVal(e.m, e.o, st.v["C3"], 1, 3) THEN "the function does not compute the terms: " \o e.what
  ELSE "ok"

FilesVerdict(e) ==
  IF e.exc # "" THEN "raised: " \o e.exc
  ELSE IF e.bad # "" THEN "unreadable output: " \o e.bad
  ELSE IF ShapeErr(e) # "" THEN ShapeErr(e)
  ELSE IF e.targets = <<>> THEN T3Verdict(e)
  ELSE AmbitVerdict(e)
=============================================================================
