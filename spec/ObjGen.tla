------------------------------- MODULE ObjGen -------------------------------
(***************************************************************************)
(* Pools of objects: each new object is made from nothing or is a small    *)
(* change of one already in the pool, so that close neighbours in the      *)
(* order (and equal objects) occur often.                                  *)
(* An object is [n, u, l, c]: name, two rows of distinct labels, and the   *)
(* number of a coefficient.  Each row also carries a partition into        *)
(* ordered blocks, b[i] = number of the block of the i-th label.           *)
(***************************************************************************)
EXTENDS Labels, Json
CONSTANTS LabSpaces, Numbers, Names, MaxRow, PoolSize, Square, Coefs, MinRow
VARIABLES pool, cur, phase
vars == <<pool, cur, phase>>
Blank == [n |-> "H", u |-> <<>>, l |-> <<>>, bu |-> <<>>, bl |-> <<>>, c |-> 1]
Init == pool = <<>> /\ cur = Blank /\ phase = "idle"
Labs == {<<s, k>> : s \in LabSpaces, k \in Numbers}
\* new object
Fresh(n, c) == /\ phase = "idle" /\ Len(pool) < PoolSize
               /\ cur' = [Blank EXCEPT !.n = n, !.c = c] /\ phase' = "row" /\ UNCHANGED pool
AddU(x, b) == /\ phase = "row" /\ Len(cur.u) < MaxRow /\ x \notin SeqSet(cur.u)
              /\ cur' = [cur EXCEPT !.u = Append(@, x), !.bu = Append(@, b)] /\ UNCHANGED <<pool, phase>>
AddL(x, b) == /\ phase = "row" /\ Len(cur.l) < MaxRow /\ x \notin SeqSet(cur.l)
              /\ cur' = [cur EXCEPT !.l = Append(@, x), !.bl = Append(@, b)] /\ UNCHANGED <<pool, phase>>
Keep == /\ phase = "row" /\ Len(cur.u) + Len(cur.l) > 0 /\ Len(cur.u) >= MinRow /\ (Square => Len(cur.u) = Len(cur.l))
        /\ pool' = Append(pool, cur) /\ phase' = "idle" /\ UNCHANGED cur
\* neighbours
Near(i) == phase = "idle" /\ Len(pool) < PoolSize /\ i \in DOMAIN pool
SwapAt(q, a, b) == [q EXCEPT ![a] = q[b], ![b] = q[a]]
Copy == \E i \in 1..PoolSize : Near(i) /\ pool' = Append(pool, pool[i]) /\ UNCHANGED <<cur, phase>>
Flip == \E i \in 1..PoolSize : Near(i) /\ pool' = Append(pool, [pool[i] EXCEPT !.u = pool[i].l, !.l = pool[i].u, !.bu = pool[i].bl, !.bl = pool[i].bu])
        /\ UNCHANGED <<cur, phase>>
Ren == \E i \in 1..PoolSize, n \in Names : Near(i) /\ pool' = Append(pool, [pool[i] EXCEPT !.n = n]) /\ UNCHANGED <<cur, phase>>
Coe == \E i \in 1..PoolSize, c \in Coefs : Near(i) /\ pool' = Append(pool, [pool[i] EXCEPT !.c = c]) /\ UNCHANGED <<cur, phase>>
SwpU == \E i \in 1..PoolSize : Near(i) /\ Len(pool[i].u) > 1 /\ \E a, b \in DOMAIN pool[i].u : a < b /\
          pool' = Append(pool, [pool[i] EXCEPT !.u = SwapAt(@, a, b)]) /\ UNCHANGED <<cur, phase>>
Lab1(x) == \E i \in 1..PoolSize : Near(i) /\ \E a \in DOMAIN pool[i].u : x \notin SeqSet(pool[i].u) /\
          pool' = Append(pool, [pool[i] EXCEPT !.u[a] = x]) /\ UNCHANGED <<cur, phase>>
Lab2(x) == \E i \in 1..PoolSize : Near(i) /\ \E a \in DOMAIN pool[i].l : x \notin SeqSet(pool[i].l) /\
          pool' = Append(pool, [pool[i] EXCEPT !.l[a] = x]) /\ UNCHANGED <<cur, phase>>
Done == phase = "idle" /\ Len(pool) = PoolSize /\ phase' = "done" /\ UNCHANGED <<pool, cur>>
Next == (\E n \in Names, c \in Coefs : Fresh(n, c)) \/ (\E x \in Labs, b \in 1..MaxRow : AddU(x, b) \/ AddL(x, b)) \/ Keep
        \/ Copy \/ Flip \/ Ren \/ Coe \/ SwpU \/ (\E x \in Labs : Lab1(x) \/ Lab2(x)) \/ Done
Spec == Init /\ [][Next]_vars
Emit == phase = "done" => PrintT("GEN " \o ToJson([pool |-> pool]))
RowsOK == \A i \in DOMAIN pool : Distinct(pool[i].u) /\ Distinct(pool[i].l)
SSO == {"g", "p", "h", "v", "c", "a"}
SSI == {"g", "h", "v", "a", "G", "H", "V", "A", "P", "c"}
SMixed == {"a", "A", "c", "C"}
Nums == {0, 1, 2, 10}
NumsS == {0, 1}
NmAll == {"H", "T", "L"}
CfAll == 1..10
SGen == {"g", "a", "v"}
NumsL == 0..12
=============================================================================
