----------------------------- MODULE HeapTrace -----------------------------
(***************************************************************************)
(* Recorded histories.  One line is one call: before and after are the     *)
(* observed states of all objects, self the object a canonicalizing call   *)
(* may rewrite (0 for none), out the result, ref the result of the same    *)
(* call on newly made equal arguments.                                     *)
(***************************************************************************)
EXTENDS Den, TraceRun

HeapVerdict(e) ==
  IF Len(e.after) < Len(e.before) THEN "an object was lost"
  ELSE IF \E i \in DOMAIN e.before : i # e.self /\ e.before[i] # e.after[i]
       THEN LET i == CHOOSE i \in DOMAIN e.before : i # e.self /\ e.before[i] # e.after[i] IN
            "the call " \o e.op \o " changed an object it does not own: " \o e.kinds[i]
  ELSE IF e.out # e.ref /\ (e.alt = <<>> \/ DenSum(e.m, e.o, e.alt[1], 1) # DenSum(e.m, e.o, e.alt[2], 1)) THEN "the result of " \o e.op \o " depends on what was called before"
  ELSE IF e.self # 0 /\ e.own # <<>> THEN
       IF Den(e.m, e.o, e.own[1]) # Den(e.m, e.o, e.own[2]) THEN "the call " \o e.op \o " changed the value of its own term" ELSE "ok"
  ELSE "ok"

MyVerdict(e) == HeapVerdict(e)
=============================================================================
