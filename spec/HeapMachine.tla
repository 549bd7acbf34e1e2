---------------------------- MODULE HeapMachine ----------------------------
(***************************************************************************)
(* Histories of calls on shared objects.  A state holds a number of        *)
(* objects, each with a value, some of them parts of others; a call reads  *)
(* its arguments, may add new objects that share parts with its arguments, *)
(* and may rewrite its own argument into an equivalent form when it is one *)
(* of the calls that canonicalize.  The history is emitted for replay.     *)
(*                                                                         *)
(* The value of an object is a pair <<class, form>>: calls that rewrite in *)
(* place may change the form, never the class.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Base,      \* number of objects at the start
          Pure,      \* calls of one argument that leave it alone
          Pure2,     \* calls of two or more arguments that leave them alone
          Rewrite,   \* calls that may rewrite their argument
          Steps, Max, Emitting

VARIABLES val, hist, orig, done
vars == <<val, hist, orig, done>>

Init == /\ val = [i \in 1..Base |-> <<i, 0>>]
        /\ orig = val
        /\ hist = <<>>
        /\ done = FALSE
Obj == DOMAIN val
New(c) == IF Len(val) < Max THEN Append(val, c) ELSE val
NewO(c) == IF Len(orig) < Max THEN Append(orig, c) ELSE orig

\* classes: a copy has the class of its argument; other results get a class of their own
PureCall(o, a, k) == /\ Len(hist) < Steps /\ UNCHANGED done /\ o \in Pure
                     /\ val' = New(<<val[a][1] + k * 100, 0>>)
                     /\ orig' = NewO(<<val[a][1] + k * 100, 0>>)
                     /\ hist' = Append(hist, [o |-> o, a |-> a, b |-> a])
PureCall2(o, a, b) == /\ Len(hist) < Steps /\ UNCHANGED done /\ o \in Pure2
                      /\ val' = New(<<val[a][1] + 10 * val[b][1], 0>>)
                      /\ orig' = NewO(<<val[a][1] + 10 * val[b][1], 0>>)
                      /\ hist' = Append(hist, [o |-> o, a |-> a, b |-> b])
RewriteCall(o, a) == /\ Len(hist) < Steps /\ UNCHANGED done /\ o \in Rewrite
                     /\ val' = [New(<<val[a][1], 1>>) EXCEPT ![a] = <<@[1], 1>>]
                     /\ orig' = NewO(<<val[a][1], 1>>)
                     /\ hist' = Append(hist, [o |-> o, a |-> a, b |-> a])
Finish == ~done /\ Len(hist) = Steps /\ done' = TRUE /\ UNCHANGED <<val, hist, orig>>
Next == \/ \E o \in Pure, a \in Obj : PureCall(o, a, 1)
        \/ \E o \in Pure2, a, b \in Obj : PureCall2(o, a, b)
        \/ \E o \in Rewrite, a \in Obj : RewriteCall(o, a)
        \/ Finish
Spec == Init /\ [][Next]_vars

\* no object ever changes its class: what was obtained keeps its value
Stable == \A i \in DOMAIN val : val[i][1] = orig[i][1]
Frame == [][\A i \in DOMAIN val : val'[i] = val[i] \/ (hist'[Len(hist')].o \in Rewrite /\ hist'[Len(hist')].a = i)]_vars
Emit == (Emitting /\ done) => PrintT("GEN " \o ToJson([h |-> hist]))

PureOps == {"copy", "flip", "hc", "void", "share", "latex", "ambit", "perm", "spin", "exc", "diag", "ddca", "expand", "grad", "paths", "cost", "hash",
            "parts", "part_canon", "part_clone", "part_spin", "part_text", "iter", "singlet", "opspin"}
Pure2Ops == {"cmp", "combine", "contract", "comm", "print", "wick", "add"}
RewriteOps == {"canon", "canonNH", "simple", "sympy", "simplify"}
SmallPure == {"copy"}
SmallPure2 == {"comm"}
SmallRewrite == {"canon"}
=============================================================================
