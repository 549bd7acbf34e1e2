---------------------------- MODULE BatchMachine ----------------------------
(***************************************************************************)
(* Contractions arrive in groups and are canonicalized in batches: a batch *)
(* is flushed as soon as at least Limit contractions are pending, and the  *)
(* rest at the end.  Every contraction is canonicalized exactly once.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Limit, Sizes, MaxGroups
VARIABLES arrived, pending, flushed, groups, closed
vars == <<arrived, pending, flushed, groups, closed>>
Init == arrived = 0 /\ pending = 0 /\ flushed = <<>> /\ groups = <<>> /\ closed = FALSE
Arrive(n) == /\ ~closed /\ Len(groups) < MaxGroups
             /\ arrived' = arrived + n /\ groups' = Append(groups, n)
             /\ IF pending + n >= Limit THEN pending' = 0 /\ flushed' = Append(flushed, pending + n)
                                        ELSE pending' = pending + n /\ UNCHANGED flushed
             /\ UNCHANGED closed
Close == /\ ~closed /\ groups # <<>> /\ closed' = TRUE /\ pending' = 0
         /\ flushed' = (IF pending > 0 THEN Append(flushed, pending) ELSE flushed) /\ UNCHANGED <<arrived, groups>>
Next == (\E n \in Sizes : Arrive(n)) \/ Close
Spec == Init /\ [][Next]_vars
RECURSIVE Sum(_, _)
Sum(q, i) == IF i > Len(q) THEN 0 ELSE q[i] + Sum(q, i + 1)
Conserved == Sum(flushed, 1) + pending = arrived
Nothing == closed => pending = 0
Emit == closed => PrintT("GEN " \o ToJson([groups |-> groups]))
SzTest == {0, 1, 2, 3, 5}
SzReal == {0, 1, 4000, 6000, 9999, 10000, 10001, 20001}
=============================================================================
