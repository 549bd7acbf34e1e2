----------------------------- MODULE CostTrace -----------------------------
(***************************************************************************)
(* Pairwise contraction of the tensors of a term (C17).  e.t[i] is the     *)
(* sequence of the labels of tensor i.  A tree is the set of the sets of   *)
(* tensors that are merged at some step; an order is a tree with the order *)
(* of its steps.                                                           *)
(***************************************************************************)
EXTENDS Labels, TraceRun

\* labels that are open after contracting the tensors in A
Open(t, A) == LET all == UNION {SeqSet(t[i]) : i \in A} IN {x \in all : Cardinality({i \in A : x \in SeqSet(t[i])}) = 1}
Cost(S) == LET v == Cardinality({x \in S : ToLower(x[1]) \in {"v", "p", "g"}})
               c == Cardinality({x \in S : ToLower(x[1]) \in {"c", "h"}})
               a == Cardinality({x \in S : ToLower(x[1]) = "a"}) IN <<v + c + a, v, c, a>>
LexLess(x, y) == \E k \in DOMAIN x : x[k] < y[k] /\ \A m \in 1..(k - 1) : x[m] = y[m]
MaxOf(S) == CHOOSE x \in S : \A y \in S : ~LexLess(x, y)
MinOf(S) == CHOOSE x \in S : \A y \in S : ~LexLess(y, x)

\* all binary trees over the tensors in A, as sets of merged sets
RECURSIVE Trees(_)
Trees(A) ==
  IF Cardinality(A) = 1 THEN {{}}
  ELSE LET x == CHOOSE x \in A : TRUE
       IN  UNION {{{A} \cup y \cup z : y \in Trees(B), z \in Trees(A \ B)} : B \in {B \in SUBSET A : x \in B /\ B # A}}
\* the two parts of a merged set
Parts(T, A) == LET sub == {B \in T : B \subseteq A /\ B # A}
                   top == {B \in sub : \A D \in sub : ~(B \subseteq D /\ B # D)}
               IN  top \cup {{x} : x \in A \ UNION top}
StepCompute(t, T, A) == Cost(UNION {Open(t, B) : B \in Parts(T, A)})
StepStorage(t, A) == Cost(Open(t, A))
TreeCompute(t, T) == MaxOf({StepCompute(t, T, A) : A \in T})
TreeStorage(t, T) == MaxOf({StepStorage(t, A) : A \in T})
\* number of orders of the steps of T: a merged set comes after its parts
RECURSIVE Prod(_, _)
Prod(T, S) == IF S = {} THEN 1 ELSE LET A == CHOOSE A \in S : TRUE IN Cardinality({B \in T : B \subseteq A}) * Prod(T, S \ {A})
NOrders(T) == Fact(Cardinality(T)) \div Prod(T, T)
RECURSIVE AllOrders(_)
AllOrders(n) == IF n <= 1 THEN 1 ELSE ((n * (n - 1)) \div 2) * AllOrders(n - 1)

TreeOf(q) == {SeqSet(q[i]) : i \in DOMAIN q}
CostVerdict(e) ==
  LET n == Len(e.t)  all == Trees(1..n)
      tree == [i \in DOMAIN e.paths |-> TreeOf(e.paths[i].tree)]
  IN
  IF n = 1 THEN
    LET c == Cost(SeqSet(e.t[1])) IN
    IF Len(e.paths) # 1 THEN "a single tensor has one order"
    ELSE IF e.paths[1].c # c \/ e.paths[1].s # c \/ e.optc.c # c \/ e.opts.c # c THEN "the cost of a single tensor is the number of its indices"
    ELSE "ok"
  ELSE IF \E i \in DOMAIN tree : tree[i] \notin all \/ Len(e.paths[i].tree) # n - 1 THEN "a listed path does not contract the tensors of the term"
  ELSE IF Len(e.paths) # AllOrders(n) THEN "the number of listed orders is wrong"
  ELSE IF \E T \in all : Cardinality({i \in DOMAIN tree : tree[i] = T}) # NOrders(T) THEN "an order is missing or listed twice"
  ELSE IF \E i \in DOMAIN tree : e.paths[i].c # TreeCompute(e.t, tree[i]) THEN "the compute cost of a path is wrong"
  ELSE IF \E i \in DOMAIN tree : e.paths[i].s # TreeStorage(e.t, tree[i]) THEN "the storage cost of a path is wrong"
  ELSE IF e.optc.c # MinOf({TreeCompute(e.t, T) : T \in all}) THEN "the optimal compute cost is not the minimum"
  ELSE IF e.opts.c # MinOf({TreeStorage(e.t, T) : T \in all}) THEN "the optimal storage cost is not the minimum"
  ELSE IF TreeOf(e.optc.tree) \notin all \/ TreeOf(e.opts.tree) \notin all THEN "the optimal path does not contract the tensors of the term"
  ELSE IF TreeCompute(e.t, TreeOf(e.optc.tree)) # e.optc.c THEN "the optimal compute path does not attain its cost"
  ELSE IF TreeStorage(e.t, TreeOf(e.opts.tree)) # e.opts.c THEN "the optimal storage path does not attain its cost"
  ELSE "ok"
MyVerdict(e) == IF e.exc # "" THEN "raised: " \o e.exc ELSE CostVerdict(e)
=============================================================================
