------------------------------ MODULE CombGen ------------------------------
(***************************************************************************)
(* Histories of combining terms: a list of entries <<term, coefficient>>   *)
(* over a small pool of terms, then an order and a grouping in which the   *)
(* same entries are combined again.                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Pool,        \* number of terms in the pool
          MaxLen, CoeffSet
VARIABLES q, perm, cuts, phase
vars == <<q, perm, cuts, phase>>
Init == q = <<>> /\ perm = <<>> /\ cuts = {} /\ phase = "list"
AddEntry(i, c) == phase = "list" /\ Len(q) < MaxLen /\ q' = Append(q, <<i, c>>) /\ UNCHANGED <<perm, cuts, phase>>
\* the entry that cancels everything given so far of one term, when it is a single one
Cancel(j) == phase = "list" /\ Len(q) < MaxLen /\ j \in DOMAIN q /\ q' = Append(q, <<q[j][1], <<-q[j][2][1], q[j][2][2]>>>>) /\ UNCHANGED <<perm, cuts, phase>>
Close == phase = "list" /\ Len(q) >= 1 /\ phase' = "perm" /\ UNCHANGED <<q, perm, cuts>>
Pick(i) == phase = "perm" /\ i \in DOMAIN q /\ i \notin {perm[k] : k \in DOMAIN perm} /\ perm' = Append(perm, i) /\ UNCHANGED <<q, cuts, phase>>
Cut == phase = "perm" /\ perm # <<>> /\ Len(perm) \notin cuts /\ Len(perm) < Len(q) /\ cuts' = cuts \cup {Len(perm)} /\ UNCHANGED <<q, perm, phase>>
Done == phase = "perm" /\ Len(perm) = Len(q) /\ phase' = "done" /\ UNCHANGED <<q, perm, cuts>>
Next == (\E i \in 1..Pool, c \in CoeffSet : AddEntry(i, c)) \/ (\E j \in 1..MaxLen : Cancel(j)) \/ Close
        \/ (\E i \in 1..MaxLen : Pick(i)) \/ Cut \/ Done
Spec == Init /\ [][Next]_vars
Emit == phase = "done" => PrintT("GEN " \o ToJson([q |-> q, perm |-> perm, cuts |-> cuts]))
\* order and grouping never lose or repeat an entry
PermOK == phase = "done" => {perm[k] : k \in DOMAIN perm} = DOMAIN q /\ Len(perm) = Len(q)
CF == {<<1,1>>, <<-1,1>>, <<1,2>>, <<-1,4>>, <<1,3>>, <<-1,36>>, <<1,2304>>, <<-1,41472>>}
=============================================================================
