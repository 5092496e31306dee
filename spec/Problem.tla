------------------------------ MODULE Problem ------------------------------
(***************************************************************************)
(* Layered decision problems given by tables, their exact semantics, and   *)
(* the (state-merging) relaxations used with them.                         *)
(*                                                                         *)
(* A problem m is a record:                                                *)
(*   n      number of variables (depths 0..n)                              *)
(*   order  order[d+1] is the variable decided at depth d                  *)
(*   nb     nb[d+1] is the number of base states 1..nb[d+1] of depth d     *)
(*   vals   vals[d+1][k] is the k-th value of the domain at depth d        *)
(*   tr     tr[d+1][b][k] is <<>> (infeasible) or <<next base state, cost>>*)
(*   v0     the initial value                                              *)
(*   kind   what merging states does: "union" (the set of the members),    *)
(*          "top" (the set of all states), "dom" (the greatest member,     *)
(*          which dominates the others), "peak" (the greatest state of the  *)
(*          layer, be it a member or not; it dominates all others)         *)
(*   slack, phi, psi   by how much a relaxed arc is over-estimated, and a  *)
(*          potential which makes the relaxed cost depend on the states    *)
(*   rub    admissible estimates of the completions of each base state     *)
(*   rank   the ranking of the states of a layer                           *)
(* A state of a decision diagram is a pair of a depth and a set of base    *)
(* states; the exact states are the singletons.                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

INF == 1000000000       \* stands for the greatest machine integer
NEG == -1000000000      \* stands for the least one, and for "no value"
Big == 100000000
Plus(a, c) == IF a >= Big \/ a <= -Big THEN a ELSE a + c
Minus(a, c) == IF a >= Big \/ a <= -Big THEN a ELSE a - c

Range(s) == {s[i] : i \in DOMAIN s}
Max(a, b) == IF a >= b THEN a ELSE b
Min(a, b) == IF a <= b THEN a ELSE b
MaxOr(S, x) == IF S = {} THEN x ELSE CHOOSE y \in S : \A z \in S : y >= z
MinOr(S, x) == IF S = {} THEN x ELSE CHOOSE y \in S : \A z \in S : y <= z
Lowest(S) == MinOr(S, 0)
Greatest(S) == MaxOr(S, 0)

-----------------------------------------------------------------------------
Feasible(m, d, b) == {k \in DOMAIN m.tr[d + 1][b] : m.tr[d + 1][b][k] # <<>>}
Next(m, d, b, k) == m.tr[d + 1][b][k][1]
Cost(m, d, b, k) == m.tr[d + 1][b][k][2]
Var(m, d) == m.order[d + 1]

(* the potential of a state: it is added to the cost of the arcs leaving it *)
F(m, d, S) == IF d >= m.n THEN 0 ELSE m.phi[d + 1][Lowest(S)] + m.psi[d + 1] * (Cardinality(S) - 1)

(* cost of an exact arc *)
ArcCost(m, d, b, k) == Cost(m, d, b, k) + F(m, d, {b}) - F(m, d + 1, {Next(m, d, b, k)})

(* greater base states dominate smaller ones *)
Ordered(m) == m.kind \in {"dom", "peak"}

(* images of a set of base states under the k-th value *)
Images(m, d, S, k) == {Next(m, d, b, k) : b \in {x \in S : k \in Feasible(m, d, x)}}
StepSet(m, d, S, k) == LET T == Images(m, d, S, k) IN IF Ordered(m) THEN {Greatest(T)} ELSE T
StepCost(m, d, S, k) ==
    MaxOr({Cost(m, d, b, k) : b \in {x \in S : k \in Feasible(m, d, x)}}, 0) + F(m, d, S) - F(m, d + 1, StepSet(m, d, S, k))
DomainOf(m, d, S) == UNION {Feasible(m, d, b) : b \in S}

Merge(m, d, SS) == LET U == UNION SS IN
    CASE m.kind = "union" -> U
      [] m.kind = "top"   -> 1..m.nb[d + 1]
      [] m.kind = "dom"   -> {Greatest(U)}
      [] m.kind = "peak"  -> {m.nb[d + 1]}
RelaxCost(m, d, dest, new, cost) == cost + F(m, d, dest) - F(m, d, new) + m.slack[d + 1]

Rub(m, d, S) == LET x == MaxOr({m.rub[d + 1][b] : b \in S}, NEG) IN
    IF x >= INF THEN INF ELSE IF x <= NEG THEN NEG ELSE x + F(m, d, S)
Rank(m, d, S) == m.rank[d + 1][Lowest(S)] + Cardinality(S)

-----------------------------------------------------------------------------
(* BestTable(m, d)[b] is the best value of a completion of base state b at depth d, in raw costs *)
RECURSIVE BestTable(_, _)
BestTable(m, d) ==
    IF d = m.n THEN [b \in 1..m.nb[d + 1] |-> 0]
    ELSE LET nxt == TLCEval(BestTable(m, d + 1)) IN
         TLCEval([b \in 1..m.nb[d + 1] |-> MaxOr({Plus(nxt[Next(m, d, b, k)], Cost(m, d, b, k)) : k \in Feasible(m, d, b)}, NEG)])

Optimum(m) == Plus(BestTable(m, 0)[1], m.v0 + F(m, 0, {1}))

(* value of the best completion of a subproblem <<depth, base state>> reached with value v *)
BestFrom(m, d, b, v) == Plus(Plus(BestTable(m, d)[b], v), F(m, d, {b}))

(* following a partial assignment (in any order) of the first Len(p) variables *)
DecisionAt(m, p, d) == {i \in DOMAIN p : p[i][1] = Var(m, d)}
KIndex(m, d, val) == {k \in DOMAIN m.vals[d + 1] : m.vals[d + 1][k] = val}
NoWalk == [ok |-> FALSE, b |-> 1, raw |-> 0]
RECURSIVE Walk(_, _, _)
(* the base state and raw value after the first d decisions of p *)
Walk(m, p, d) ==
    IF d = 0 THEN [ok |-> TRUE, b |-> 1, raw |-> 0]
    ELSE LET w == Walk(m, p, d - 1) IN
         IF ~w.ok THEN NoWalk ELSE
         LET I == DecisionAt(m, p, d - 1) IN
         IF Cardinality(I) # 1 THEN NoWalk ELSE
         LET K == KIndex(m, d - 1, p[CHOOSE i \in I : TRUE][2]) IN
         IF K = {} THEN NoWalk ELSE
         LET k == CHOOSE x \in K : TRUE IN
         IF k \notin Feasible(m, d - 1, w.b) THEN NoWalk
         ELSE [ok |-> TRUE, b |-> Next(m, d - 1, w.b, k), raw |-> w.raw + Cost(m, d - 1, w.b, k)]

(* the value (in node values) of a path to depth Len(p) *)
PathValue(m, p, w) == m.v0 + F(m, 0, {1}) + w.raw - F(m, Len(p), {w.b})

(* is p a feasible complete assignment, and what is it worth *)
Genuine(m, p) == Len(p) = m.n /\ Walk(m, p, m.n).ok
SolutionValue(m, p) == PathValue(m, p, Walk(m, p, m.n))

-----------------------------------------------------------------------------
(* Coverage: a table C with C[d+1][b] = the greatest value with which state  *)
(* b at depth d counts as covered (NEG: not at all).  Uncovered(...) is the   *)
(* best completion of (d, b, a) which meets no covered state strictly below.  *)
RECURSIVE Uncovered(_, _, _, _, _)
Uncovered(m, C, d, b, a) ==
    IF d = m.n THEN a
    ELSE MaxOr({ LET x == Next(m, d, b, k)
                     v == Plus(a, ArcCost(m, d, b, k))
                 IN IF C[d + 2][x] > NEG /\ v <= C[d + 2][x] THEN NEG ELSE Uncovered(m, C, d + 1, x, v)
               : k \in Feasible(m, d, b)}, NEG)
NoCover(m) == [i \in 1..(m.n + 1) |-> [b \in 1..m.nb[i] |-> NEG]]
(* entries: a set of [d, b, th] *)
CoverTable(m, entries) ==
    [i \in 1..(m.n + 1) |-> [b \in 1..m.nb[i] |-> MaxOr({e.th : e \in {x \in entries : x.d = i - 1 /\ x.b = b}}, NEG)]]
=============================================================================
