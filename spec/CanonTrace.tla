----------------------------- MODULE CanonTrace -----------------------------
EXTENDS Symm, TraceRun

Bad(t) == t.c[2] = 0

\* e.kind "value": before, after (sequences of terms), model, options
MyVerdict(e) ==
  IF e.exc # "" THEN "raised: " \o e.exc
  ELSE IF e.ev = "same" THEN
       IF e.x = e.y THEN "ok" ELSE "equivalent terms have different canonical forms"
  ELSE IF e.ev = "idem" THEN
       IF e.x = e.y THEN "ok" ELSE "canonicalizing a canonical term changed it"
  ELSE IF \E i \in DOMAIN e.after : Bad(e.after[i]) THEN "coefficient is not a finite rational of the expected size"
  ELSE IF \E i \in DOMAIN e.after : ~WellFormed(e.after[i]) THEN "result is not a well-formed term"
  ELSE IF DenSum(e.m, e.o, e.before, 1) # DenSum(e.m, e.o, e.after, 1) THEN "value changed by " \o e.what
  ELSE IF e.van /\ e.after # <<>> /\ e.after[1].c[1] # 0 /\ Len(e.after[1].s) <= 8
          /\ DenSum(e.m, e.o, e.before, 1) = 0 /\ VanishesBySymmetry(e.o.herm, e.after[1])
       THEN "term vanishing by symmetry is not canonicalized to the empty term"
  ELSE "ok"
=============================================================================
