---------------------------- MODULE DiagramProps ----------------------------
(***************************************************************************)
(* What one compilation of a decision diagram has to achieve.  c is a      *)
(* compilation:                                                            *)
(*   type, w (maximum width), root (d, set, v, path, ub), lb               *)
(*   t0, t1  the thresholds before and after (records d, set, th, ex);     *)
(*           empty for the diagram without thresholds                      *)
(*   exact, some/value, hassol/sol, drained, cut (nodes d, set, v, path,   *)
(*   ub), explored, domcalls                                               *)
(*   dom, tr, merges, relax   the calls made to the problem and relaxation *)
(*   vars   the states offered to each choice of the next variable         *)
(***************************************************************************)
EXTENDS Problem

Only(S) == CHOOSE x \in S : TRUE
RootB(c) == Only(Range(c.root.set))

(* thresholds of exact states as coverage entries; a state which dominates others covers them too *)
Covers(m, t, d, b) ==
    LET S == Range(t.set) IN
    IF t.d # d \/ Cardinality(S) # 1 THEN NEG
    ELSE IF S = {b} THEN t.th
    ELSE IF Ordered(m) /\ Only(S) > b THEN Minus(Plus(t.th, F(m, d, S)), F(m, d, {b}))
    ELSE NEG
Cover0(m, c) ==
    [i \in 1..(m.n + 1) |-> [b \in 1..m.nb[i] |-> MaxOr({Covers(m, t, i - 1, b) : t \in Range(c.t0)}, NEG)]]

Th(T, d, S) == LET H == {t \in Range(T) : t.d = d /\ Range(t.set) = S} IN
    IF H = {} THEN [th |-> NEG, ex |-> FALSE, in |-> FALSE] ELSE LET t == Only(H) IN [th |-> t.th, ex |-> t.ex, in |-> TRUE]
(* will the search drop the cutset node because of a threshold? *)
Blocked(c, n) == LET t == Th(c.t1, n.d, Range(n.set)) IN
    t.in /\ (t.th > n.v \/ (t.th = n.v /\ t.ex))

(* best completion of the root which avoids the states covered beforehand, and best completion at all *)
Target(m, c) == Uncovered(m, Cover0(m, c), c.root.d, RootB(c), c.root.v)
Real(m, c) == BestFrom(m, c.root.d, RootB(c), c.root.v)

Contains(p, q) == \A i \in DOMAIN q : q[i] \in Range(p)
GenuineBest(m, c) ==
    IF c.some # c.hassol THEN "a best value without a best solution, or conversely"
    ELSE IF ~c.some THEN ""
    ELSE IF ~Genuine(m, c.sol) THEN "the best solution is not a feasible complete assignment"
    ELSE IF ~Contains(c.sol, c.root.path) THEN "the best solution does not extend the path of the root"
    ELSE IF SolutionValue(m, c.sol) # c.value THEN "the best solution does not have the best value"
    ELSE ""
Misses(m, c) == LET t == Target(m, c) IN t > c.lb /\ (~c.some \/ c.value < t)

(* the greatest number of states of any layer below the root *)
Widest(m) == MaxOr(Range(m.nb), 0)

Restricted(m, c) ==
    IF c.fatal # "" THEN c.fatal
    ELSE LET g == GenuineBest(m, c) IN
    IF g # "" THEN g
    ELSE IF c.exact /\ Misses(m, c) THEN "reported exact although a better completion exists"
    ELSE IF ~c.exact /\ c.w >= Widest(m) THEN "nothing can have been dropped, yet not reported exact"
    ELSE ""

Relaxed(m, c) ==
    IF c.fatal # "" THEN c.fatal
    ELSE IF Misses(m, c) THEN "the best value is below the optimum of the subproblem"
    ELSE IF c.some # c.hassol THEN "a best value without a best solution, or conversely"
    ELSE IF ~c.exact THEN ""
    ELSE LET g == GenuineBest(m, c) IN
    IF g # "" THEN "reported exact: " \o g
    ELSE IF c.some /\ c.value > Real(m, c) THEN "reported exact with a value above the optimum"
    ELSE ""

Exact(m, c) ==
    IF c.fatal # "" THEN c.fatal
    ELSE IF ~c.exact THEN "an exact diagram not reported exact"
    ELSE LET g == GenuineBest(m, c) IN
    IF g # "" THEN g
    ELSE IF Misses(m, c) THEN "the best value is below the optimum of the subproblem"
    ELSE ""

ByType(m, c) ==
    CASE c.type = "restricted" -> Restricted(m, c)
      [] c.type = "relaxed" -> Relaxed(m, c)
      [] c.type = "exact" -> Exact(m, c)

-----------------------------------------------------------------------------
(* cutsets *)
ExactNode(n) == Cardinality(Range(n.set)) = 1
LiveCut(m, c) == {[d |-> n.d, b |-> Only(Range(n.set)), th |-> n.v] :
                  n \in {x \in Range(c.cut) : ExactNode(x) /\ x.d <= m.n /\ x.d > c.root.d /\ ~Blocked(c, x)}}
Join(m, A, B) == [i \in 1..(m.n + 1) |-> [b \in 1..m.nb[i] |-> Max(A[i][b], B[i][b])]]
Cover1(m, c) == Join(m, Cover0(m, c), CoverTable(m, IF c.exact THEN {} ELSE LiveCut(m, c)))

Covering(m, c) ==
    IF c.fatal # "" \/ c.type # "relaxed" \/ ~c.drained \/ c.exact THEN ""
    ELSE IF Uncovered(m, Cover1(m, c), c.root.d, RootB(c), c.root.v) > c.lb
    THEN "a completion better than the lower bound avoids the cutset" ELSE ""

NodeReason(m, c, n) ==
    IF n.d <= c.root.d \/ n.d > m.n \/ Len(n.path) # n.d THEN "a cutset node is not strictly below the root"
    ELSE IF ~ExactNode(n) THEN "a cutset node has a merged state"
    ELSE IF ~Contains(n.path, c.root.path) THEN "the path of a cutset node does not extend the path of the root"
    ELSE LET w == Walk(m, n.path, n.d) IN
    IF ~w.ok THEN "the path of a cutset node is not feasible"
    ELSE IF {w.b} # Range(n.set) THEN "the path of a cutset node does not lead to its state"
    ELSE IF {Walk(m, n.path, c.root.d).b} # Range(c.root.set) THEN "the path of a cutset node avoids the root"
    ELSE IF PathValue(m, n.path, w) # n.v THEN "the path of a cutset node does not have its value"
    ELSE IF ~c.some \/ n.ub > c.value THEN "the bound of a cutset node exceeds the best value of the diagram"
    ELSE IF n.ub > Plus(Rub(m, n.d, Range(n.set)), n.v) THEN "the bound of a cutset node exceeds its value and the estimate of its state"
    ELSE LET u == Uncovered(m, Cover0(m, c), n.d, w.b, n.v) IN
    IF u > c.lb /\ n.ub < u THEN "the bound of a cutset node is below the value of a completion"
    ELSE ""
CutNodes(m, c) ==
    IF c.fatal # "" \/ c.type # "relaxed" THEN ""
    ELSE LET R == {NodeReason(m, c, n) : n \in Range(c.cut)} \ {""} IN IF R = {} THEN "" ELSE Only(R)

-----------------------------------------------------------------------------
(* thresholds *)
Changed(c, t) == LET o == Th(c.t0, t.d, Range(t.set)) IN
    ~o.in \/ t.th > o.th \/ (t.th = o.th /\ t.ex /\ ~o.ex)
ThresholdReason(m, c, t) ==
    IF ~Changed(c, t) \/ t.th <= -Big THEN ""
    ELSE IF Cardinality(Range(t.set)) # 1 THEN "a threshold for a merged state"
    ELSE LET b == Only(Range(t.set))
             goal == IF c.exact /\ c.some THEN Max(c.lb, c.value) ELSE c.lb
             self == ~t.ex /\ \E n \in LiveCut(m, c) : ~c.exact /\ n.d = t.d /\ n.b = b /\ n.th >= t.th
         IN IF ~self /\ Uncovered(m, Cover1(m, c), t.d, b, t.th) > goal
            THEN "a threshold discards a subproblem with a completion that nothing else covers" ELSE ""
Thresholds(m, c) ==
    IF c.fatal # "" \/ c.type # "relaxed" \/ ~c.drained THEN ""
    ELSE LET R == {ThresholdReason(m, c, t) : t \in Range(c.t1)} \ {""} IN IF R = {} THEN "" ELSE Only(R)

-----------------------------------------------------------------------------
(* the layers, rebuilt from the calls made to the problem and the relaxation *)
SetOf(s) == Range(s)
ArcsAt(c, d) == {[s |-> SetOf(a.s), t |-> SetOf(a.t), val |-> a.val, c |-> a.c] : a \in {x \in Range(c.tr) : x.d = d}}
ExpandedAt(c, d) == {SetOf(x.s) : x \in {y \in Range(c.dom) : y.d = d}}
MergesAt(c, d) == {g \in Range(c.merges) : g.d = d}
Ins(g) == {SetOf(s) : s \in Range(g.ins)}
(* the layer of depth d as a function from states to values: before and after merging *)
RECURSIVE Layer(_, _, _)
Before(m, c, d) ==
    LET prev == Layer(m, c, d - 1)
        A == {a \in ArcsAt(c, d - 1) : a.s \in DOMAIN prev}
    IN [t \in {a.t : a \in A} |-> MaxOr({Plus(prev[a.s], a.c) : a \in {x \in A : x.t = t}}, NEG)]
Layer(m, c, d) ==
    IF d = c.root.d THEN [s \in {SetOf(c.root.set)} |-> c.root.v]
    ELSE LET pre == Before(m, c, d) IN
         IF MergesAt(c, d) = {} THEN pre
         ELSE LET g == Only(MergesAt(c, d))
                  out == SetOf(g.out)
                  prev == Layer(m, c, d - 1)
                  A == {a \in ArcsAt(c, d - 1) : a.s \in DOMAIN prev /\ a.t \in Ins(g)}
                  mv == MaxOr({Plus(prev[a.s], RelaxCost(m, d, a.t, out, a.c)) : a \in A}, NEG)
              IN [s \in DOMAIN pre \cup {out} |->
                    IF s = out THEN Max(mv, IF out \in DOMAIN pre THEN pre[out] ELSE NEG) ELSE pre[s]]
Better(m, d, L, x, y) == L[x] > L[y] \/ (L[x] = L[y] /\ Rank(m, d, x) > Rank(m, d, y))
Prunable(m, c, d, L, s) == \/ Plus(L[s], Rub(m, d, s)) <= c.lb \/ Rub(m, d, s) = NEG
                           \/ Th(c.t1, d, s).th >= L[s]
Widths(m, c) ==
    IF c.fatal # "" \/ c.type = "exact" THEN ""
    ELSE LET bad(d) ==
        LET X == ExpandedAt(c, d) IN
        IF c.type = "restricted" THEN
            IF Cardinality(X) > c.w THEN "a restricted layer is wider than allowed"
            ELSE LET L == Layer(m, c, d)
                     dropped == {s \in DOMAIN L \ X : ~Prunable(m, c, d, L, s)}
                 IN IF \E s \in dropped, k \in X \cap DOMAIN L : Better(m, d, L, s, k) THEN "a dropped node is better than a kept one" ELSE ""
        ELSE IF d <= c.root.d + 1 THEN ""
        ELSE IF Cardinality(X) > c.w THEN "a relaxed layer is wider than allowed"
        ELSE IF MergesAt(c, d) = {} THEN ""
        ELSE LET g == Only(MergesAt(c, d))
                 L == Before(m, c, d)
                 gone == Ins(g) \cap DOMAIN L
                 kept == (X \cap DOMAIN L) \ Ins(g)
             IN IF \E s \in gone, k \in kept : Better(m, d, L, s, k) THEN "a merged node is better than a kept one" ELSE ""
         R == {bad(d) : d \in c.root.d..(m.n - 1)} \ {""}
    IN IF R = {} THEN "" ELSE Only(R)

(* the contract of the relaxation *)
MergeReason(m, c, g) ==
    LET d == g.d
        L == Before(m, c, d)
        out == SetOf(g.out)
        X == ExpandedAt(c, d)
        A == {a \in ArcsAt(c, d - 1) : a.t \in Ins(g)}
        told == {[s |-> SetOf(r.s), t |-> SetOf(r.t), new |-> SetOf(r.new), val |-> r.val, c |-> r.c] : r \in {x \in Range(c.relax) : x.d = d}}
        arc(a) == [s |-> a.s, t |-> a.t, new |-> out, val |-> a.val, c |-> a.c]
        must == {arc(a) : a \in {x \in A : x.t \notin X \/ x.t = out}}
    IN IF d <= c.root.d \/ d > m.n THEN "merged states of no layer"
       ELSE IF Len(g.ins) < 2 THEN "less than two states were merged"
       ELSE IF Cardinality(Ins(g)) # Len(g.ins) THEN "a state was merged with itself"
       ELSE IF ~(Ins(g) \subseteq DOMAIN L) THEN "a merged state is not a state of the layer"
       ELSE IF ~(must \subseteq told) THEN "an arc into a merged node was not relaxed (with its own source, destination, decision and cost)"
       ELSE IF ~(told \subseteq {arc(a) : a \in A}) THEN "something which is no arc into a merged node was relaxed"
       ELSE ""
(* the next variable is chosen from exactly the states of the layer *)
Offered(m, c) ==
    LET ok(v) == LET D == {x.d : x \in Range(v)} S == {SetOf(x.s) : x \in Range(v)} IN
        /\ Cardinality(D) = 1
        /\ LET d == Only(D) IN
            IF d = c.root.d THEN S = {SetOf(c.root.set)} ELSE S = {a.t : a \in ArcsAt(c, d - 1)}
    IN \A v \in Range(c.vars) : ok(v)
Contract(m, c) ==
    IF c.fatal # "" THEN IF c.fatal = "panic: decision" THEN c.fatal ELSE ""
    ELSE IF \E x \in Range(c.dom) : x.d >= m.n \/ x.var # Var(m, x.d) THEN "a domain was enumerated for the wrong variable"
    ELSE IF \E x \in Range(c.tr) : LET K == KIndex(m, x.d, x.val) IN K = {} \/ Only(K) \notin DomainOf(m, x.d, SetOf(x.s)) THEN "a transition with a decision outside the domain"
    ELSE IF \E x \in Range(c.tr) : ~(\E y \in Range(c.dom) : y.d = x.d /\ SetOf(y.s) = SetOf(x.s)) THEN "a transition which was not enumerated"
    ELSE IF ~Offered(m, c) THEN "the next variable was not chosen from exactly the states of the layer"
    ELSE IF c.type # "relaxed" THEN IF c.merges # <<>> \/ c.relax # <<>> THEN "the relaxation was used in another mode" ELSE ""
    ELSE IF \E g, h \in DOMAIN c.merges : g # h /\ c.merges[g].d = c.merges[h].d THEN ""  \* several merges in one layer: not rebuilt
    ELSE LET R == {MergeReason(m, c, g) : g \in Range(c.merges)} \ {""} IN IF R = {} THEN "" ELSE Only(R)

Count(c) == IF c.fatal = "" /\ c.explored # c.domcalls THEN "the count of the diagram differs from the domain enumerations" ELSE ""

-----------------------------------------------------------------------------
First(seq) == LET B == {i \in DOMAIN seq : seq[i] # ""} IN IF B = {} THEN "" ELSE seq[MinOr(B, 1)]
Everything(m, c) == First(<<ByType(m, c), Covering(m, c), CutNodes(m, c), Thresholds(m, c), Count(c)>>)
DVerdict(p, m, c) ==
    CASE p = "C06" -> IF c.type = "restricted" THEN Restricted(m, c) ELSE ""
      [] p = "C07" -> IF c.type = "relaxed" THEN Relaxed(m, c) ELSE ""
      [] p = "C08" -> IF c.type = "exact" THEN Exact(m, c) ELSE ""
      [] p = "C09" -> Covering(m, c)
      [] p = "C10" -> CutNodes(m, c)
      [] p = "C11" -> Thresholds(m, c)
      [] p = "C12" -> Everything(m, c)
      [] p = "C15" -> Widths(m, c)
      [] p = "C16" -> Contract(m, c)
      [] p = "C17" -> Count(c)
=============================================================================
