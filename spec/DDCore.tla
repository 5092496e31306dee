------------------------------- MODULE DDCore -------------------------------
(***************************************************************************)
(* The compilation of a decision diagram, one layer at a time.             *)
(*                                                                         *)
(* A diagram in the making is a record dd:                                 *)
(*   kind "all" (plain) or "bar" (with thresholds); cutset "lel" or        *)
(*   "frontier"; type "exact", "restricted" or "relaxed"; w maximum width; *)
(*   root [d, b, v, ub, path, sgn]; lb lower bound                              *)
(*   d      depth of the layer to be developed                             *)
(*   nxt    its nodes; prv the nodes of the layer above that were kept      *)
(*   node   function from node identities to nodes; edge set of edges      *)
(*   approx something was dropped or merged                                *)
(*   cut    nodes of the cutset; lel depth of the last exact layer (or -1) *)
(*   phase  "layer", "bottom", "done"                                      *)
(*   best, exact, explored   the result                                    *)
(* A node is identified by its depth, its state and g: 0 usual, 1 merged    *)
(* away, 2 made by merging.  Whatever depends on the order of a hash table, or on an unstable *)
(* sort, is a choice: the steps yield sets of successors.                  *)
(***************************************************************************)
EXTENDS Problem, TLC

None == [d |-> -1, S |-> {}, g |-> 0]
Id(d, S) == [d |-> d, S |-> S, g |-> 0]
NoEdge == [f |-> None, t |-> None, k |-> 0, c |-> 0]

NewNode(v, exact, relaxed, best) ==
    [v |-> v, ex |-> exact, rel |-> relaxed, best |-> best, rub |-> INF, theta |-> INF,
     bot |-> NEG, mark |-> FALSE, cut |-> FALSE, pruned |-> FALSE]
IsExact(x) == x.ex /\ ~x.rel

Start(kind, cutset, type, w, root, lb) ==
    [kind |-> kind, cutset |-> cutset, type |-> type, w |-> w, root |-> root, lb |-> lb,
     d |-> root.d, nxt |-> {Id(root.d, {root.b})}, prv |-> {},
     node |-> [x \in {Id(root.d, {root.b})} |-> NewNode(root.v, TRUE, FALSE, NoEdge)], edge |-> {},
     approx |-> FALSE, cut |-> {}, lel |-> -1, phase |-> "layer",
     best |-> None, exact |-> TRUE, explored |-> 0]

-----------------------------------------------------------------------------
(* thresholds: T[d+1][b] = [in, th, ex] *)
NoThreshold == [in |-> FALSE, th |-> NEG, ex |-> FALSE]
NoThresholds(m) == [i \in 1..(m.n + 1) |-> [b \in 1..m.nb[i] |-> NoThreshold]]
(* storing a threshold: only if it says more than the one which is there *)
Stored(T, d, b, th, ex) ==
    LET o == T[d + 1][b] IN
    IF ~o.in \/ th > o.th \/ (th = o.th /\ ex /\ ~o.ex) THEN [T EXCEPT ![d + 1][b] = [in |-> TRUE, th |-> th, ex |-> ex]] ELSE T
(* below the last exact layer nothing is stored *)
MayStore(dd, d) == ~(dd.cutset = "lel" /\ dd.lel >= 0 /\ d > dd.lel)
RECURSIVE StoreAll(_, _, _)
StoreAll(dd, T, us) ==
    IF us = {} THEN T
    ELSE LET u == CHOOSE x \in us : TRUE IN
         StoreAll(dd, IF MayStore(dd, u.d) THEN Stored(T, u.d, u.b, u.th, u.ex) ELSE T, us \ {u})

-----------------------------------------------------------------------------
(* the steps of one layer *)
(* one element for each value of Op: choices which make no difference are not distinguished *)
Distinct(X, Op(_)) == {CHOOSE x \in X : Op(x) = z : z \in {Op(x) : x \in X}}
Inner(dd, X) == {x \in X : dd.kind = "bar" /\ dd.d > dd.root.d /\ ~dd.node[x].rel}
Pruned(dd, T) == {x \in Inner(dd, dd.nxt) : \E b \in x.S : T[dd.d + 1][b].in /\ dd.node[x].v <= T[dd.d + 1][b].th}

NodeBetter(m, dd, x, y) ==
    LET a == dd.node[x] b == dd.node[y] IN
    a.v > b.v \/ (a.v = b.v /\ Rank(m, dd.d, x.S) > Rank(m, dd.d, y.S))
Selections(m, dd, X, k) == {K \in SUBSET X : Cardinality(K) = k /\ \A x \in X \ K, y \in K : ~NodeBetter(m, dd, x, y)}

TooWide(dd, X) ==
    \/ dd.type = "restricted" /\ Cardinality(X) > dd.w
    \/ dd.type = "relaxed" /\ Cardinality(X) > dd.w /\ dd.d > dd.root.d + 1

(* merging the nodes of X other than K *)
Merged(m, dd, X, K) ==
    LET G == X \ K
        M == Merge(m, dd.d, {x.S : x \in G})
        again == {x \in K : x.S = M}
        gone(x) == [x EXCEPT !.g = 1]
        mid == IF again = {} THEN [d |-> dd.d, S |-> M, g |-> 2] ELSE Id(dd.d, M)
        lel == dd.cutset = "lel" /\ ~dd.approx
        (* when the merged state is already there, the best merged node is kept as well *)
        Saved == IF again = {} THEN {None} ELSE {x \in G : \A y \in G : ~NodeBetter(m, dd, y, x)}
        result(saved) ==
            LET drop == G \ {saved}
                ren(x) == IF x \in drop THEN gone(x) ELSE x
                into == {e \in dd.edge : e.t \in G}
                copies == {[f |-> e.f, t |-> mid, k |-> e.k, c |-> RelaxCost(m, dd.d, e.t.S, M, e.c)] : e \in into}
                val(e) == Plus(dd.node[e.f].v, e.c)
                top == MaxOr({val(e) : e \in copies}, NEG)
                old == IF again = {} THEN NewNode(NEG, FALSE, TRUE, NoEdge) ELSE [dd.node[mid] EXCEPT !.rel = TRUE]
                news == IF top >= old.v /\ copies # {} THEN {[old EXCEPT !.v = top, !.best = CHOOSE e \in copies : val(e) = top]} ELSE {old}
                edges == {[e EXCEPT !.t = ren(e.t)] : e \in dd.edge} \cup copies
                reb(b) == [b EXCEPT !.t = ren(b.t)]
                ids == {ren(x) : x \in DOMAIN dd.node} \cup {mid}
            IN {[dd EXCEPT !.approx = TRUE,
                           !.edge = edges,
                           !.cut = IF lel THEN dd.prv ELSE @,
                           !.lel = IF lel /\ dd.prv # {} THEN dd.d - 1 ELSE @,
                           !.node = TLCEval([x \in ids |->
                                LET y == IF x.g = 1 /\ x.d = dd.d THEN dd.node[[x EXCEPT !.g = 0]] ELSE IF x = mid THEN new ELSE dd.node[x] IN
                                IF lel /\ x \in dd.prv THEN [y EXCEPT !.cut = TRUE] ELSE [y EXCEPT !.best = reb(@)]])]
                : new \in news}
    IN UNION {{<<dd2, K \cup {mid} \cup ({s} \ {None})>> : dd2 \in result(s)} : s \in Saved}

Squashed(m, dd, X) ==
    IF ~TooWide(dd, X) THEN {<<dd, X>>}
    ELSE IF dd.type = "restricted" THEN {<<[dd EXCEPT !.approx = TRUE], K>> : K \in Selections(m, dd, X, dd.w)}
    ELSE UNION {Merged(m, dd, X, K) : K \in Selections(m, dd, X, dd.w - 1)}

(* a path from x upwards which meets an exact node before any merged one *)
RECURSIVE ExactPath(_, _)
ExactPath(dd, x) ==
    IF x = None THEN TRUE
    ELSE LET y == dd.node[x] IN IsExact(y) \/ (~y.rel /\ ExactPath(dd, y.best.f))

(* the sign of a value: values are relative to an offset of sign root.sgn, much greater than they are *)
Positive(dd, v) == dd.root.sgn > 0 \/ (dd.root.sgn = 0 /\ v > 0)
(* what is below the nodes of X *)
Kept(m, dd, X) == {x \in X : IF Rub(m, dd.d, x.S) <= NEG THEN dd.lb <= NEG /\ Positive(dd, dd.node[x].v)
                                                     ELSE Plus(dd.node[x].v, Rub(m, dd.d, x.S)) > dd.lb}
ThetaOf(m, dd, x) == LET rub == Rub(m, dd.d, x.S) IN
    IF rub <= NEG THEN IF dd.lb <= NEG THEN 0 ELSE INF ELSE Minus(dd.lb, rub)
Developed(m, dd, X) ==
    LET kept == Kept(m, dd, X)
        arcs == UNION {{[f |-> x, t |-> Id(dd.d + 1, StepSet(m, dd.d, x.S, k)), k |-> k, c |-> StepCost(m, dd.d, x.S, k)] : k \in DomainOf(m, dd.d, x.S)} : x \in kept}
        new == {e.t : e \in arcs}
        val(e) == Plus(dd.node[e.f].v, e.c)
        INTO == TLCEval([t \in new |-> {e \in arcs : e.t = t}])
        into(t) == INTO[t]
        TOP == TLCEval([t \in new |-> MaxOr({val(e) : e \in into(t)}, NEG)])
        top(t) == TOP[t]
        TOPS == TLCEval([t \in new |-> {e \in into(t) : val(e) = top(t)}])
        tops(t) == TOPS[t]
        fl(e) == dd.node[e.f]
        (* which of several best arcs is taken makes a difference to the flags and to the exactness of the best path only *)
        feel(n) == <<n.ex, n.rel, ExactPath(dd, n.best.f)>>
        (* plain diagram: the flags of the first parent, exact only if all parents are; the first of the best arcs *)
        plain(t) == {NewNode(top(t), \A e \in into(t) : IsExact(fl(e)), fl(p[1]).rel, p[2]) :
                        p \in {q \in into(t) \X tops(t) : q[1] \in tops(t) => q[2] = q[1]}}
        (* with thresholds: the flags of the best arc, an exact one if there is any *)
        exacts(t) == {e \in tops(t) : IsExact(fl(e))}
        other(t) == {NewNode(top(t), fl(e).ex, fl(e).rel, e) : e \in IF exacts(t) # {} THEN exacts(t) ELSE tops(t)}
        OPTS == TLCEval([t \in new |-> Distinct(IF dd.kind = "all" THEN plain(t) ELSE other(t), feel)])
        opts(t) == OPTS[t]
        RECURSIVE choices(_)
        choices(R) == IF R = {} THEN {<<>>}
                      ELSE LET t == CHOOSE x \in R : TRUE IN
                           {(t :> z[1]) @@ z[2] : z \in opts(t) \X choices(R \ {t})}
        seen(x) == IF x \in X THEN [dd.node[x] EXCEPT !.rub = Rub(m, dd.d, x.S), !.theta = IF x \in kept THEN @ ELSE ThetaOf(m, dd, x)] ELSE dd.node[x]
    IN {[dd EXCEPT !.node = TLCEval([x \in DOMAIN dd.node \cup new |-> IF x \in new THEN f[x] ELSE seen(x)]),
                   !.edge = @ \cup arcs, !.prv = X, !.nxt = new, !.d = @ + 1, !.explored = @ + Cardinality(kept)] : f \in choices(new)}

(* one layer: the diagrams and thresholds it may lead to *)
LayerStep(m, dd, T) ==
    LET P == Pruned(dd, T)
        dd1 == [dd EXCEPT !.node = TLCEval([x \in DOMAIN dd.node |-> IF x \in P THEN [dd.node[x] EXCEPT !.pruned = TRUE, !.theta = T[dd.d + 1][CHOOSE b \in x.S : TRUE].th] ELSE dd.node[x]])]
        early(dd2, X) ==
            IF dd.kind = "all" \/ dd.type # "relaxed" THEN {}
            ELSE {[d |-> dd.d, b |-> CHOOSE b \in x.S : TRUE, ex |-> FALSE,
                   th |-> IF x \in Kept(m, dd2, X) THEN dd2.node[x].v ELSE ThetaOf(m, dd2, x)] : x \in {y \in X : IsExact(dd2.node[y])}}
    IN UNION {{<<dd3, StoreAll(q[1], T, early(q[1], q[2]))>> : dd3 \in Developed(m, q[1], q[2])} : q \in Squashed(m, dd1, dd.nxt \ P)}

-----------------------------------------------------------------------------
(* the end of the compilation *)
ExactOf(dd, best) == ~dd.approx \/ (dd.type = "relaxed" /\ ExactPath(dd, best))
Ended(dd) ==
    LET top == MaxOr({dd.node[x].v : x \in dd.nxt}, NEG)
        B == IF dd.nxt = {} THEN {None} ELSE {x \in dd.nxt : dd.node[x].v = top}
    IN {[dd EXCEPT !.best = b, !.exact = ExactOf(dd, b), !.phase = IF dd.type = "relaxed" THEN "bottom" ELSE "done"] : b \in B}
(* the layer is empty and yet the problem names a variable to decide *)
Emptied(dd) == {[dd EXCEPT !.exact = ExactOf(dd, None), !.phase = "done"]}

(* from the bottom to the top, one layer at a time; d is the depth of the children *)
Leaves(dd) == [x \in DOMAIN dd.node |->
    IF x \notin dd.nxt THEN dd.node[x]
    ELSE [dd.node[x] EXCEPT !.bot = 0, !.mark = TRUE,
             !.cut = @ \/ (dd.cutset = "frontier" /\ IsExact(dd.node[x])) \/ (dd.kind = "bar" /\ dd.cutset = "lel" /\ ~dd.approx)]]
LeafCut(dd) == {x \in dd.nxt : dd.cutset = "frontier" /\ IsExact(dd.node[x]) /\ ~dd.exact}

(* the threshold of a node once its children are done *)
Settled(dd, N, x) == LET y == N[x] IN
    IF ~y.cut THEN y.theta
    ELSE IF y.bot <= NEG THEN IF dd.lb <= NEG THEN Min(y.theta, y.v) ELSE y.theta
    ELSE IF Plus(y.v, y.bot) < dd.lb THEN Min(y.theta, Minus(dd.lb, y.bot)) ELSE Min(y.theta, y.v)

RECURSIVE Climb(_, _, _, _, _)
(* yields <<nodes, cutset, thresholds>> after treating the nodes of depth d and above *)
Climb(dd, N, C, T, d) ==
    IF d < dd.root.d THEN <<N, C, T>>
    ELSE LET X == {x \in DOMAIN N : x.d = d /\ x.g # 1}
             N1 == TLCEval([x \in DOMAIN N |-> IF dd.kind = "bar" /\ x \in X THEN [N[x] EXCEPT !.theta = Settled(dd, N, x)] ELSE N[x]])
             T1 == IF dd.kind = "all" THEN T
                   ELSE StoreAll(dd, T, {[d |-> d, b |-> CHOOSE b \in x.S : TRUE, th |-> N1[x].theta, ex |-> ~N1[x].cut] : x \in {y \in X : IsExact(N1[y]) /\ ~N1[y].pruned}})
             below(x) == {e \in dd.edge : e.f = x /\ e.t \in X}
             (* the plain diagram does not look above the last exact layer *)
             use(e) == N1[e.t].mark /\ ~(dd.kind = "all" /\ dd.cutset = "lel" /\ N1[e.t].cut)
             up(x) == LET M == {e \in below(x) : use(e)}
                          front == dd.cutset = "frontier" /\ IsExact(N1[x]) /\ \E e \in M : ~IsExact(N1[e.t])
                      IN [N1[x] EXCEPT !.mark = @ \/ M # {}, !.bot = Max(@, MaxOr({Plus(N1[e.t].bot, e.c) : e \in M}, NEG)),
                                       !.theta = Min(@, MinOr({Minus(N1[e.t].theta, e.c) : e \in below(x)}, INF)),
                                       !.cut = @ \/ front]
             N2 == TLCEval([x \in DOMAIN N |-> IF x.d = d - 1 THEN up(x) ELSE N1[x]])
             C2 == TLCEval(C \cup {x \in DOMAIN N : x.d = d - 1 /\ ~N1[x].cut /\ N2[x].cut})
         IN Climb(dd, N2, C2, T1, d - 1)
Finished(dd, T) ==
    IF dd.kind = "all" /\ dd.exact THEN <<[dd EXCEPT !.phase = "done"], T>>
    ELSE LET z == Climb(dd, TLCEval(Leaves(dd)), dd.cut \cup LeafCut(dd), T, dd.d)
         IN <<[dd EXCEPT !.node = z[1], !.cut = z[2], !.phase = "done"], z[3]>>

-----------------------------------------------------------------------------
(* the results *)
Value(dd) == dd.node[dd.best].v
Some(dd) == dd.best # None
RECURSIVE PathTo(_, _, _)
PathTo(m, dd, x) ==
    LET e == dd.node[x].best IN
    IF e = NoEdge THEN dd.root.path
    ELSE Append(PathTo(m, dd, e.f), <<Var(m, e.f.d), m.vals[e.f.d + 1][e.k]>>)
CutNode(m, dd, x) == LET y == dd.node[x] IN
    [d |-> x.d, set |-> x.S, v |-> y.v, path |-> PathTo(m, dd, x), ub |-> Min(Min(Plus(y.v, y.rub), Plus(y.v, y.bot)), Value(dd))]
Drained(m, dd) == IF ~Some(dd) THEN {} ELSE {CutNode(m, dd, x) : x \in {z \in dd.cut : dd.node[z].mark}}
=============================================================================
