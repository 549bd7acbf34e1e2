---------------------------- MODULE PoolMachine ----------------------------
(***************************************************************************)
(* A pool of Workers executes tasks handed out in chunks; chunks are       *)
(* dispatched in order, run concurrently and complete in any order.        *)
(* Batches of contractions are collected until a limit is reached, then    *)
(* flushed through such a pool.                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Workers, NChunks
VARIABLES sent, running, done, picks
vars == <<sent, running, done, picks>>
SeqSet(q) == {q[i] : i \in DOMAIN q}
Init == sent = 0 /\ running = {} /\ done = <<>> /\ picks = <<>>
Dispatch == /\ sent < NChunks /\ Cardinality(running) < Workers
            /\ sent' = sent + 1 /\ running' = running \cup {sent + 1} /\ UNCHANGED <<done, picks>>
Rank(c) == Cardinality({x \in running : x < c})
\* a worker finishes; the pool is kept full, as the task queue is never empty while chunks remain
Full == sent = NChunks \/ Cardinality(running) = Workers
Finish(c) == /\ c \in running /\ Full /\ running' = running \ {c} /\ done' = Append(done, c) /\ picks' = Append(picks, Rank(c)) /\ UNCHANGED sent
Next == Dispatch \/ \E c \in 1..NChunks : Finish(c)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* every unit of work exactly once, at every point of every schedule
Once == Len(done) = Cardinality(SeqSet(done)) /\ SeqSet(done) \cap running = {} /\ SeqSet(done) \cup running = 1..sent
Bounded == Cardinality(running) <= Workers
AllDone == <>(Len(done) = NChunks)
Emit == Len(done) = NChunks => PrintT("GEN " \o ToJson([workers |-> Workers, picks |-> picks]))
=============================================================================
