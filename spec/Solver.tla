------------------------------- MODULE Solver -------------------------------
(***************************************************************************)
(* The parallel branch and bound: threads which share a frontier, bounds   *)
(* and (with kind "bar") thresholds.  Every critical section is one step;   *)
(* with thresholds, every layer of a compilation is one too, without them   *)
(* a whole compilation is, since it does not touch anything shared.         *)
(* The configurations [m, kind, dup, cutset, w, threads, int, hist, stubborn, runs]     *)
(* to explore are the records of the file CFGS.                                *)
(***************************************************************************)
EXTENDS DDCore, Frontier, IOUtils, Json

Cfgs == ndJsonDeserialize(IOEnv.CFGS)
VARIABLES
    i,        \* the configuration
    pc,       \* what each thread does
    node,     \* the subproblem it works on
    dd,       \* its decision diagram in the making
    res,      \* what it got from the last diagram
    pend,     \* the frontier
    lb, ub,   \* best lower bound; upper bound (set at the end)
    up,       \* bounds of the subproblems being worked on
    ongoing,  \* how many
    stopped,  \* interrupted
    T,        \* thresholds
    openl, ongl, low,  \* pending and ongoing by layer, lowest active layer
    nodes, dds, \* counts of subproblems and of nodes of diagrams expanded (if C.count)
    hist,     \* what was taken: depth, state, value
    asked,    \* how often the interrupt was consulted since ... (per thread, saturating at 1)
    left      \* how many times the solver is run again
vars == <<left, i, pc, node, dd, res, pend, lb, ub, up, ongoing, stopped, T, openl, ongl, low, nodes, dds, hist, asked>>

C == Cfgs[i]
m == C.m
Bar == C.kind = "bar"
Threads == 1..C.threads
NoNode == [d |-> -1, b |-> 0, v |-> 0, u |-> 0]
NoDD == [phase |-> "none"]
NoRes == [some |-> FALSE, v |-> NEG, exact |-> FALSE, cut |-> {}, n |-> 0]
Opt == Optimum(m)

RankOf(s) == Rank(m, s[1], {s[2]})
Fresh(P, s, v, u) == IF ~C.dup THEN 0 ELSE CHOOSE k \in 0..Cardinality(P) : [s |-> s, v |-> v, u |-> u, ps |-> {k}] \notin P /\ \A j \in 0..(k - 1) : [s |-> s, v |-> v, u |-> u, ps |-> {j}] \in P
Put(P, n) == LET s == <<n.d, n.b>> IN Pushed(C.dup, P, Fresh(P, s, n.v, n.u), s, n.v, n.u)
RECURSIVE PutAll(_, _)
PutAll(P, N) == IF N = {} THEN P ELSE LET n == CHOOSE x \in N : TRUE IN PutAll(Put(P, n), N \ {n})
NodeOf(x) == [d |-> x.s[1], b |-> x.s[2], v |-> x.v, u |-> x.u]

Layers == [j \in 1..(m.n + 1) |-> 0]
Init == /\ i \in DOMAIN Cfgs
        /\ pc = [t \in Threads |-> "get"] /\ node = [t \in Threads |-> NoNode]
        /\ dd = [t \in Threads |-> NoDD] /\ res = [t \in Threads |-> NoRes]
        /\ pend = Put({}, [d |-> 0, b |-> 1, v |-> m.v0, u |-> INF])
        /\ lb = NEG /\ ub = INF /\ up = [t \in Threads |-> INF] /\ ongoing = 0 /\ stopped = FALSE
        /\ T = NoThresholds(m) /\ openl = [Layers EXCEPT ![1] = 1] /\ ongl = Layers /\ low = 0
        /\ hist = {} /\ nodes = 0 /\ dds = 0 /\ asked = [t \in Threads |-> 0] /\ left = C.runs - 1

-----------------------------------------------------------------------------
(* getting work: one critical section *)
RECURSIVE Lowest2(_)
Lowest2(l) == IF l < m.n /\ openl[l + 1] + ongl[l + 1] = 0 THEN Lowest2(l + 1) ELSE l
Cleaned == [j \in 1..(m.n + 1) |-> IF Bar /\ j - 1 >= low /\ j - 1 < Lowest2(low) THEN [b \in 1..m.nb[j] |-> NoThreshold] ELSE T[j]]

Complete(t) == /\ ongoing = 0 /\ pend = {}
               /\ ub' = lb /\ pc' = [pc EXCEPT ![t] = "end"]
               /\ UNCHANGED <<node, dd, res, pend, lb, up, ongoing, stopped, openl, ongl, nodes, dds, hist, asked>>
OngoingUb == IF ongoing = 0 THEN NEG ELSE MaxOr({up[t] : t \in {x \in Threads : up[x] # INF}}, INF)
Stop(t) == /\ C.int /\ ~(ongoing = 0 /\ pend = {})
           /\ stopped' = TRUE /\ pc' = [pc EXCEPT ![t] = "end"]
           /\ ub' = Max(lb, Max(OngoingUb, MaxOr({x.u : x \in pend}, NEG)))
           /\ pend' = {}
           /\ asked' = [asked EXCEPT ![t] = 1]
           /\ UNCHANGED <<node, dd, res, lb, up, ongoing, openl, ongl, nodes, dds, hist>>
Starve(t) == /\ pend = {} /\ ongoing > 0
             /\ pc' = [pc EXCEPT ![t] = "wait"] /\ asked' = [asked EXCEPT ![t] = 1]
             /\ UNCHANGED <<node, dd, res, pend, lb, ub, up, ongoing, stopped, openl, ongl, nodes, dds, hist>>

(* popping until something is worth it: the set of <<what, entry, frontier, open counts>> *)
Explore(x) == LET e == T[x.s[1] + 1][x.s[2]] IN ~e.in \/ x.v > e.th \/ (x.v = e.th /\ ~e.ex)
RECURSIVE Popped(_, _)
Popped(P, o) ==
    UNION {LET x == e
               Q == P \ {x}
               o2 == [o EXCEPT ![x.s[1] + 1] = @ - 1]
           IN IF x.u <= lb THEN {<<"clear", x, {}, Layers>>}
              ELSE IF ~Bar \/ Explore(x) THEN {<<"take", x, Q, o2>>}
              ELSE IF Q = {} THEN {<<"none", x, Q, o2>>}
              ELSE Popped(Q, o2)
           : e \in {y \in P : Top(P, RankOf, y)}}
Take(t) ==
    /\ pend # {}
    /\ asked' = [asked EXCEPT ![t] = IF @ < 3 THEN @ + 1 ELSE @]
    /\ \E q \in Popped(pend, openl) :
        /\ pend' = q[3]
        /\ IF q[1] = "take"
           THEN LET x == q[2] d == x.s[1] b == x.s[2] IN
                /\ node' = [node EXCEPT ![t] = NodeOf(x)]
                /\ hist' = IF C.hist THEN hist \cup {<<d, b, x.v>>} ELSE hist
                /\ pc' = [pc EXCEPT ![t] = "begin"]
                /\ ongoing' = ongoing + 1
                /\ nodes' = IF C.count THEN nodes + 1 ELSE nodes
                /\ up' = [up EXCEPT ![t] = x.u]
                /\ openl' = IF Bar THEN q[4] ELSE openl
                /\ ongl' = IF Bar THEN [ongl EXCEPT ![d + 1] = @ + 1] ELSE ongl
                /\ T' = IF Bar THEN [Cleaned EXCEPT ![d + 1][b] = [in |-> TRUE, th |-> x.v, ex |-> TRUE]] ELSE T
           ELSE /\ UNCHANGED <<node, pc, ongoing, up, ongl, nodes, dds, hist>> /\ T' = Cleaned /\ openl' = IF Bar THEN q[4] ELSE openl
    /\ UNCHANGED <<dd, res, lb, ub, stopped, dds>>
Get(t) ==
    /\ pc[t] = "get" /\ i' = i
    /\ low' = IF Bar THEN Lowest2(low) ELSE low
    /\ IF stopped THEN /\ pc' = [pc EXCEPT ![t] = "end"]
                       /\ T' = Cleaned
                       /\ UNCHANGED <<node, dd, res, pend, lb, ub, up, ongoing, stopped, openl, ongl, nodes, dds, hist, asked>>
       ELSE \/ Complete(t) /\ T' = Cleaned
            \/ Stop(t) /\ T' = Cleaned
            \/ Starve(t) /\ T' = Cleaned
            \/ Take(t)

-----------------------------------------------------------------------------
(* working on a subproblem *)
Fresher(t, type, bound) == Start(C.kind, C.cutset, type, C.width[node[t].d + 1],
    [d |-> node[t].d, b |-> node[t].b, v |-> node[t].v, ub |-> node[t].u, path |-> <<>>, sgn |-> C.sgn], bound)
Advance(q) == LET x == q[1] IN
    CASE x.phase = "done" -> {q}
      [] x.phase = "bottom" -> {Finished(x, q[2])}
      [] x.phase = "layer" -> IF x.d = m.n \/ x.nxt = {}
                              THEN {<<y, q[2]>> : y \in IF x.nxt = {} /\ C.stubborn THEN Emptied(x) ELSE Ended(x)}
                              ELSE LayerStep(m, x, q[2])
RECURSIVE Run(_)
Run(S) == IF \A q \in S : q[1].phase = "done" THEN S ELSE Run(UNION {Advance(q) : q \in S})
Summary(x) == [n |-> x.explored, some |-> Some(x), v |-> IF Some(x) THEN Value(x) ELSE NEG, exact |-> x.exact,
               cut |-> IF x.type # "relaxed" \/ x.exact THEN {}
                       ELSE {[d |-> n.d, b |-> CHOOSE b \in n.set : TRUE, v |-> n.v, u |-> n.ub] : n \in
                             IF ~Some(x) THEN {} ELSE {[d |-> k.d, set |-> k.S, v |-> x.node[k].v, ub |-> Min(Min(Plus(x.node[k].v, x.node[k].rub), Plus(x.node[k].v, x.node[k].bot)), Value(x))] : k \in {z \in x.cut : x.node[z].mark}}}]
(* compiling: at once, or a layer at a time *)
Compile(t, here, next) ==
    /\ pc[t] = here
    /\ IF Bar
       THEN IF dd[t].phase = "done"
            THEN /\ res' = [res EXCEPT ![t] = Summary(dd[t])] /\ dd' = [dd EXCEPT ![t] = NoDD]
                 /\ pc' = [pc EXCEPT ![t] = next] /\ T' = T
            ELSE /\ \E q \in Advance(<<dd[t], T>>) : dd' = [dd EXCEPT ![t] = q[1]] /\ T' = q[2]
                 /\ UNCHANGED <<res, pc>>
       ELSE /\ res' \in {[res EXCEPT ![t] = Summary(q[1])] : q \in Run({<<dd[t], T>>})}
            /\ dd' = [dd EXCEPT ![t] = NoDD]
            /\ pc' = [pc EXCEPT ![t] = next] /\ T' = T
    /\ dds' = IF C.count /\ pc'[t] = next THEN dds + res'[t].n ELSE dds
    /\ UNCHANGED <<i, node, pend, lb, ub, up, ongoing, stopped, openl, ongl, low, nodes, hist, asked>>

Rest1 == UNCHANGED <<i, node, res, ub, up, ongoing, stopped, T, openl, ongl, low, pend, nodes, dds>>
Begin(t) == /\ pc[t] = "begin"
            /\ IF node[t].u <= lb
               THEN pc' = [pc EXCEPT ![t] = "finish"] /\ UNCHANGED <<dd, hist, asked>>
               ELSE /\ pc' = [pc EXCEPT ![t] = "restricted"]
                    /\ dd' = [dd EXCEPT ![t] = Fresher(t, "restricted", lb)]
                    /\ hist' = hist
                    /\ asked' = [asked EXCEPT ![t] = 0]
            /\ lb' = lb /\ Rest1
Update(t) == /\ pc[t] = "update"
             /\ lb' = IF res[t].some /\ res[t].v > lb THEN res[t].v ELSE lb
             /\ pc' = [pc EXCEPT ![t] = IF res[t].exact THEN "finish" ELSE "again"]
             /\ UNCHANGED <<dd, hist, asked>> /\ Rest1
Again(t) == /\ pc[t] = "again"
            /\ dd' = [dd EXCEPT ![t] = Fresher(t, "relaxed", lb)]
            /\ pc' = [pc EXCEPT ![t] = "relaxed"]
            /\ lb' = lb /\ UNCHANGED <<hist, asked>> /\ Rest1
Conclude(t) ==
    /\ pc[t] = "conclude" /\ pc' = [pc EXCEPT ![t] = "finish"]
    /\ IF res[t].exact
       THEN /\ lb' = IF res[t].some /\ res[t].v > lb THEN res[t].v ELSE lb
            /\ UNCHANGED <<pend, openl>>
       ELSE LET N == {n \in {[x EXCEPT !.u = Min(@, node[t].u)] : x \in res[t].cut} : n.u > lb} IN
            /\ pend' = PutAll(pend, N) /\ lb' = lb
            /\ openl' = IF Bar THEN [j \in DOMAIN openl |-> openl[j] + Cardinality({n \in N : n.d = j - 1})] ELSE openl
    /\ UNCHANGED <<i, node, dd, res, ub, up, ongoing, stopped, T, ongl, low, nodes, dds, hist, asked>>
Finish(t) == /\ pc[t] = "finish"
             /\ ongoing' = ongoing - 1 /\ up' = [up EXCEPT ![t] = INF]
             /\ ongl' = IF Bar THEN [ongl EXCEPT ![node[t].d + 1] = @ - 1] ELSE ongl
             /\ pc' = [s \in Threads |-> IF s = t \/ pc[s] = "wait" THEN "get" ELSE pc[s]]
             /\ node' = [node EXCEPT ![t] = NoNode] /\ res' = [res EXCEPT ![t] = NoRes]
             /\ UNCHANGED <<i, dd, pend, lb, ub, stopped, T, openl, low, nodes, dds, hist, asked>>

Act(t) == Get(t) \/ Begin(t) \/ Compile(t, "restricted", "update") \/ Update(t) \/ Again(t)
          \/ Compile(t, "relaxed", "conclude") \/ Conclude(t) \/ Finish(t)
Ended2 == \A t \in Threads : pc[t] = "end"
(* the solver is run again: it keeps the incumbent and forgets everything else *)
Rerun == /\ Ended2 /\ left > 0 /\ left' = left - 1
         /\ pc' = [t \in Threads |-> "get"] /\ pend' = Put({}, [d |-> 0, b |-> 1, v |-> m.v0, u |-> INF])
         /\ stopped' = FALSE /\ T' = NoThresholds(m) /\ openl' = [Layers EXCEPT ![1] = 1] /\ low' = 0
         /\ hist' = {} /\ asked' = [t \in Threads |-> 0]
         /\ UNCHANGED <<i, node, dd, res, lb, ub, up, ongoing, ongl, nodes, dds>>
Step == (\E t \in Threads : Act(t) /\ left' = left) \/ Rerun \/ (Ended2 /\ left = 0 /\ UNCHANGED vars)
Safe == Init /\ [][Step]_vars
Spec == Safe /\ \A t \in 1..4 : WF_vars(t \in Threads /\ Act(t) /\ left' = left) /\ WF_vars(Rerun)

-----------------------------------------------------------------------------
(* C01, C02: a run to completion finds the optimum *)
Optimal == (Ended2 /\ ~stopped) => lb = Opt /\ ub = lb
(* C05: the bounds bracket the optimum, at the end and (the lower one) at any time *)
Bracket == lb <= Opt /\ (Ended2 => ub >= Opt /\ ub >= lb)
(* C04: no thread gets stuck (deadlocks are reported by TLC itself) and every run ends *)
Awake == (\A t \in Threads : pc[t] \in {"wait", "end"}) => Ended2
Terminates == <>(Ended2 /\ left = 0)
(* C24: a start needs a consultation of the interrupt by that thread; once stopped nothing more is taken *)
Asked == \A t \in Threads : pc[t] = "begin" => asked[t] >= 1
(* C18: taking a subproblem again needs a greater value *)
Takes == [][\A t \in DOMAIN pc : (Bar /\ pc[t] = "get" /\ pc'[t] = "begin") =>
              \A h \in hist : h[1] = node'[t].d /\ h[2] = node'[t].b => h[3] < node'[t].v]_vars
(* C31: the bound of an interrupted run is that of the incumbent or of an open subproblem *)
Tight == [][(~stopped /\ stopped') =>
              ub' = Max(lb, Max(MaxOr({x.u : x \in pend}, NEG), MaxOr({node[t].u : t \in {x \in Threads : pc[x] \notin {"get", "wait", "end"}}}, NEG)))]_vars
(* the counters mean what they say *)
Counts == /\ ongoing = Cardinality({t \in Threads : pc[t] \notin {"get", "wait", "end"}})
          /\ ongoing >= 0
          /\ Bar => /\ \A j \in DOMAIN ongl : ongl[j] = Cardinality({t \in Threads : pc[t] \notin {"get", "wait", "end"} /\ node[t].d = j - 1})
                    /\ ~stopped => \A j \in DOMAIN openl : openl[j] >= Cardinality({x \in pend : x.s[1] = j - 1})
                    /\ \A j \in DOMAIN openl : openl[j] >= 0
          /\ \A t \in Threads : pc[t] \in {"get", "wait", "end"} => up[t] = INF
(* without thresholds: while the optimum is not known, some open subproblem leads to it *)
Leads == (~Bar /\ ~stopped /\ lb < Opt) =>
    \/ \E x \in pend : BestFrom(m, x.s[1], x.s[2], x.v) = Opt /\ x.u >= Opt
    \/ \E t \in Threads : pc[t] \notin {"get", "wait", "end"} /\ BestFrom(m, node[t].d, node[t].b, node[t].v) = Opt
(* C25: with one thread the search is best-first: nothing pending has a greater bound than what is being worked on,
   and no subproblem is developed whose bound is below the optimum *)
BestFirst == (C.threads = 1 /\ pc[1] \notin {"get", "wait", "end"}) =>
    /\ \A x \in pend : x.u <= node[1].u
    /\ pc[1] # "begin" /\ pc[1] # "finish" => node[1].u >= Opt
(* C26: what is pending or being worked on is a partial solution with its value *)
RECURSIVE ValuesTo(_, _)
ValuesTo(d, b) == IF d = 0 THEN IF b = 1 THEN {m.v0 + F(m, 0, {1})} ELSE {}
    ELSE UNION {{v + Cost(m, d - 1, a, k) : v \in ValuesTo(d - 1, a)} :
                <<a, k>> \in {x \in (1..m.nb[d]) \X (1..Len(m.vals[d])) : x[2] \in Feasible(m, d - 1, x[1]) /\ Next(m, d - 1, x[1], x[2]) = b}}
Partial(d, b, v) == v + F(m, d, {b}) \in ValuesTo(d, b)
Partials == /\ \A x \in pend : Partial(x.s[1], x.s[2], x.v)
            /\ \A t \in Threads : node[t] # NoNode => Partial(node[t].d, node[t].b, node[t].v)

(* is this end one which the implementation reported? *)
Reported(o) == /\ o.fatal = "" /\ (o.status = "interrupted") = stopped
               /\ o.lb = lb /\ o.ub = ub
               /\ o.explored = nodes /\ o.exploreddd = dds
Agrees == Ended2 => \A k \in DOMAIN C.outs : Reported(C.outs[k]) => PrintT("SAME|" \o ToString(i) \o "|" \o ToString(k) \o "|")
=============================================================================
