------------------------------ MODULE WickGen ------------------------------
(***************************************************************************)
(* Behaviours that build an input of the contraction engine: operators are *)
(* opened with a rank, their labels filled in one at a time, and finally   *)
(* the parameters of the call are chosen.  Labels are numbered by position *)
(* by the replay driver, so they never collide between operators; dg asks  *)
(* for equal labels in creation and annihilation of the same operator.     *)
(* Terminal states are printed as JSON and replayed.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Spaces, Ranks, MinOps, MaxOps, MaxMicro, Cus, Los, His, Fcs, Ehs, Dgs

VARIABLES ops, need, phase, par
vars == <<ops, need, phase, par>>

RECURSIVE Total(_, _)
Total(s, i) == IF i > Len(s) THEN 0 ELSE Len(s[i].u) + Len(s[i].l) + Total(s, i + 1)

Init == ops = <<>> /\ need = <<0, 0>> /\ phase = "build" /\ par = <<>>

Open(r) == /\ phase = "build" /\ need = <<0, 0>> /\ Len(ops) < MaxOps
           /\ Total(ops, 1) + r[1] + r[2] <= MaxMicro
           /\ ops' = Append(ops, [u |-> <<>>, l |-> <<>>])
           /\ need' = r
           /\ UNCHANGED <<phase, par>>
Fill(s) == /\ phase = "build" /\ need # <<0, 0>>
           /\ IF need[1] > 0
              THEN ops' = [ops EXCEPT ![Len(ops)].u = Append(@, s)] /\ need' = <<need[1] - 1, need[2]>>
              ELSE ops' = [ops EXCEPT ![Len(ops)].l = Append(@, s)] /\ need' = <<0, need[2] - 1>>
           /\ UNCHANGED <<phase, par>>
Call == /\ phase = "build" /\ need = <<0, 0>> /\ Len(ops) >= MinOps
        /\ \E cu \in Cus, lo \in Los, hi \in His, fc \in Fcs, eh \in Ehs, dg \in Dgs :
             /\ lo <= hi
             /\ par' = [cu |-> cu, lo |-> lo, hi |-> hi, fc |-> fc, eh |-> eh, dg |-> dg]
        /\ phase' = "called"
        /\ UNCHANGED <<ops, need>>
\* a separate step, so that simulation prints only the behaviour it follows
Finish == phase = "called" /\ phase' = "done" /\ UNCHANGED <<ops, need, par>>

Next == (\E r \in Ranks : Open(r)) \/ (\E i \in DOMAIN Spaces : Fill(Spaces[i])) \/ Call \/ Finish
Spec == Init /\ [][Next]_vars

Emit == phase = "done" => PrintT("GEN " \o ToJson([ops |-> ops, par |-> par]))
=============================================================================
