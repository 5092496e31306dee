------------------------------ MODULE Examples ------------------------------
(***************************************************************************)
(* The three problems of the example programs, as transition systems on    *)
(* their plain (never merged) states, and what a run of the programs has   *)
(* to report.  The layers of reachable states are enumerated; states which *)
(* agree on what the future depends on keep the least cost only.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Max2(a, b) == IF a >= b THEN a ELSE b
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumOver(f, S \ {x})

(* keep the cheapest of the states with the same key: elements are <<key, cost>> *)
Cheapest(L) == {x \in L : \A y \in L : y[1] = x[1] => y[2] >= x[2]}
RECURSIVE Layered(_, _, _, _)
Layered(Succ(_, _), L, t, end) == IF t = end THEN L ELSE LET N == TLCEval(Cheapest(UNION {Succ(x, t) : x \in L})) IN Layered(Succ, N, t + 1, end)

-----------------------------------------------------------------------------
(* Travelling salesman with time windows: the time of return to the depot (city 1),
   waiting included; the cost of a state is the time *)
TsptwSucc(x, st) ==
    LET S == st[1][1] p == st[1][2] t == st[2]
        Moves == IF Cardinality(S) = x.n - 1 THEN {1} ELSE (2..x.n) \ S
        At(c) == Max2(t + x.d[p][c], x.tw[c][1])
    IN {<<<<S \cup {c}, c>>, At(c)>> : c \in {k \in Moves : At(k) <= x.tw[k][2]}}
TsptwBest(x) == LET S(st, t) == TsptwSucc(x, st) IN {e[2] * 10000 : e \in Layered(S, {<<<<{}, 1>>, 0>>}, 0, x.n)}

(* Single-row facility layout: departments are placed from left to right; the length of a
   department separates those on its left from those on its right *)
SrflpSucc(x, st) ==
    LET S == st[1]
        Crossing(d) == SumOver([pq \in S \X ((1..x.n) \ (S \cup {d})) |-> x.f[pq[1]][pq[2]]], S \X ((1..x.n) \ (S \cup {d})))
    IN {<<S \cup {d}, st[2] + x.l[d] * Crossing(d)>> : d \in (1..x.n) \ S}
SrflpBest(x) == LET S(st, t) == SrflpSucc(x, st) IN {e[2] : e \in Layered(S, {<<{}, 0>>}, 0, x.n)}

(* Pigment sequencing: at most one unit is produced in a period, in time for its deadline;
   the periods are decided from the last to the first.  Key: <<item produced next (0 = none), orders left by item>> *)
Deadlines(x, i) == {p \in 1..x.t : x.dem[i][p] = 1}
Kth(D, k) == CHOOSE p \in D : Cardinality({q \in D : q <= p}) = k
PspSucc(x, st, t) ==
    LET p == x.t - t
        k == st[1][1] left == st[1][2]
        Can(i) == left[i] > 0 /\ Kth(Deadlines(x, i), left[i]) >= p
        Price(i) == (IF k = 0 THEN 0 ELSE x.c[i][k]) + x.s[i] * (Kth(Deadlines(x, i), left[i]) - p)
    IN {st} \cup {<<<<i, [left EXCEPT ![i] = @ - 1]>>, st[2] + Price(i)>> : i \in {j \in 1..x.items : Can(j)}}
PspBest(x) ==
    LET S(st, t) == PspSucc(x, st, t)
        all == [i \in 1..x.items |-> Cardinality(Deadlines(x, i))]
    IN {e[2] : e \in {z \in Layered(S, {<<<<0, all>>, 0>>}, 0, x.t) : \A i \in 1..x.items : z[1][2][i] = 0}}

Best(x) == CASE x.p = "tsptw" -> TsptwBest(x) [] x.p = "srflp" -> SrflpBest(x) [] x.p = "psp" -> PspBest(x)

-----------------------------------------------------------------------------
(* may the run have merged states? (with this width factor no layer of a small instance is ever too wide) *)
Merging(r) == r.x.p = "tsptw" /\ r.cfg.width # 1000
ExampleReason(r) ==
    LET o == r.o
        B == Best(r.x)
        opt == - Least(B)
    IN IF o.fatal # "" THEN "no result: " \o o.fatal
       ELSE IF o.lines # 1 THEN "not exactly one result line"
       ELSE IF o.status # "Proved" THEN "not proved"
       ELSE IF o.solver # r.cfg.solver THEN "another solver"
       ELSE IF B = {} THEN IF o.some THEN "a value for an infeasible instance" ELSE IF o.lb # o.ub THEN "proved with different bounds" ELSE ""
       ELSE IF Merging(r) /\ o.lb = o.ub /\ (IF o.some THEN o.value < opt ELSE o.lb < opt) THEN "tsptw with merged states: a longer tour than the optimum"
       ELSE IF ~o.some THEN "no value although the instance is feasible"
       ELSE IF o.value # opt THEN "the value is not the optimum of the instance"
       ELSE IF o.lb # opt \/ o.ub # opt THEN "the bounds are not the optimum"
       ELSE IF o.gap # 0 THEN "proved with a gap"
       ELSE ""
=============================================================================
