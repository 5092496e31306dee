------------------------------ MODULE Frontier ------------------------------
(***************************************************************************)
(* The frontier of a best-first search: a bag of pending subproblems, of    *)
(* which a greatest one (bound first, then ranking) is popped.              *)
(* An entry is a record [s, v, u, ps]: state, value, upper bound, and the   *)
(* identities of the pushes whose path the entry may carry (one, but in     *)
(* case of equal values).  With Dup = FALSE no two entries share a state.   *)
(***************************************************************************)
EXTENDS Integers, FiniteSets

FMax(a, b) == IF a >= b THEN a ELSE b

(* the bag after pushing (s, v, u) as the push number p *)
Pushed(dup, P, p, s, v, u) ==
    LET old == {x \in P : x.s = s} IN
    IF dup \/ old = {} THEN P \cup {[s |-> s, v |-> v, u |-> u, ps |-> {p}]}
    ELSE LET x == CHOOSE y \in old : TRUE IN
         (P \ {x}) \cup {[s |-> s, v |-> FMax(x.v, v), u |-> FMax(x.u, u),
                          ps |-> IF v > x.v THEN {p} ELSE IF v = x.v THEN x.ps \cup {p} ELSE x.ps]}

(* a greatest entry *)
Top(P, Rank(_), x) == \A y \in P : y.u < x.u \/ (y.u = x.u /\ Rank(y.s) <= Rank(x.s))
=============================================================================
