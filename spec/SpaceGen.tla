------------------------------ MODULE SpaceGen ------------------------------
(***************************************************************************)
(* Exhaustive: every pair of labels of one spin for densities and deltas,  *)
(* every denotable set of elementary spaces, every small cost counter.     *)
(***************************************************************************)
EXTENDS Labels, Json
CONSTANTS CLabels, MaxPer, MaxSum
VARIABLE e
Sp(i) == Spaces[i]
Downs == {[ev |-> "down", n |-> n, a |-> Spaces[i], b |-> Spaces[j], out |-> ""] : n \in {"K", "L", "C"}, i \in 1..12, j \in 1..12}
SameSpin(x) == IsBeta(x.a) = IsBeta(x.b)
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SetSeq(S \ {x})
Finds == {[ev |-> "find", set |-> SetSeq(Denotes(Spaces[i])), out |-> ""] : i \in 1..12}
RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + Sum(f, S \ {x})
Counts == {f \in [CLabels -> 0..MaxPer] : Sum(f, CLabels) \in 1..MaxSum}
RECURSIVE Pairs(_, _)
Pairs(f, S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN (IF f[x] = 0 THEN <<>> ELSE <<<<x, f[x]>>>>) \o Pairs(f, S \ {x})
Counters == {[ev |-> "counter", cnt |-> Pairs(f, CLabels), parsed |-> <<>>, total |-> -1, raw |-> [s \in ElemOf("g") \cup {"g", "h", "p"} |-> -1]] : f \in Counts}
Init == \/ e \in {x \in Downs : SameSpin(x)} \/ e \in Finds \/ e \in Counters
Next == FALSE /\ UNCHANGED e
Spec == Init /\ [][Next]_e
Emit == PrintT("GEN " \o ToJson(e))
CSome == {"v", "V", "p", "c", "H", "a", "A"}
CAll == {"v", "V", "p", "P", "g", "G", "c", "C", "h", "H", "a", "A"}
=============================================================================
