----------------------------- MODULE NoDupHeap -----------------------------
(***************************************************************************)
(* The updatable binary heap behind the duplicate-free frontier: payloads   *)
(* in slots, a vector of slots in heap order, the position of each slot,    *)
(* the slots to recycle and the slot of each pending state.  It must        *)
(* behave as the bag of module Frontier: Refines relates its contents with  *)
(* a bag which evolves by the actions of that module.                       *)
(* Each distinct layout prints one history which leads to it; these are     *)
(* replayed into the implementation.                                        *)
(***************************************************************************)
EXTENDS Frontier, Sequences, TLC

CONSTANTS Keys, Values, Bounds, Length, Emit
(* the ranking makes some states equivalent *)
RankOf(s) == s \div 2
VARIABLES
    slot,   \* payload of each slot: [s, v, u, p]
    pos,    \* position in the heap of each slot
    heap,   \* slots, by position
    bin,    \* slots to recycle, the last one first
    at,     \* slot of each state, 0 when it is not pending
    bag,    \* what the frontier is meant to hold
    got,    \* the last answer was one which the bag may give
    hist    \* the operations so far
vars == <<slot, pos, heap, bin, at, bag, got, hist>>
Layout == <<[k \in DOMAIN slot |-> <<slot[k].s, slot[k].v, slot[k].u>>], pos, heap, bin, at, got>>

Less(x, y) == x.u < y.u \/ (x.u = y.u /\ RankOf(x.s) < RankOf(y.s))
(* heap and positions after exchanging positions a and b *)
Exchange(h, q, a, b) == <<[h EXCEPT ![a] = h[b], ![b] = h[a]], [q EXCEPT ![h[a]] = b, ![h[b]] = a]>>
RECURSIVE Up(_, _, _, _)
Up(s, h, q, a) == IF a > 1 /\ Less(s[h[a \div 2]], s[h[a]])
                  THEN LET x == Exchange(h, q, a, a \div 2) IN Up(s, x[1], x[2], a \div 2) ELSE <<h, q>>
Kid(s, h, a) == IF 2 * a > Len(h) THEN 0
                ELSE IF 2 * a + 1 > Len(h) THEN 2 * a
                ELSE IF Less(s[h[2 * a + 1]], s[h[2 * a]]) THEN 2 * a ELSE 2 * a + 1
RECURSIVE Down(_, _, _, _)
Down(s, h, q, a) == LET k == Kid(s, h, a) IN
    IF k > 0 /\ Less(s[h[a]], s[h[k]])
    THEN LET x == Exchange(h, q, a, k) IN Down(s, x[1], x[2], k) ELSE <<h, q>>

Init == slot = <<>> /\ pos = <<>> /\ heap = <<>> /\ bin = <<>> /\ at = [s \in Keys |-> 0]
        /\ bag = {} /\ got = TRUE /\ hist = <<>>

Push(s, v, u) ==
    LET p == Len(hist) + 1
        n == [s |-> s, v |-> v, u |-> u, p |-> p] IN
    /\ hist' = Append(hist, <<"p", s, v, u>>)
    /\ bag' = Pushed(FALSE, bag, p, s, v, u)
    /\ got' = TRUE
    /\ IF at[s] # 0
       THEN LET id == at[s] old == slot[id]
                n2 == [n EXCEPT !.u = FMax(u, old.u)]
                kept == IF v > old.v THEN n2 ELSE [old EXCEPT !.u = n2.u]
                s2 == [slot EXCEPT ![id] = kept]
                x == IF Less(old, n2) THEN Up(s2, heap, pos, pos[id]) ELSE <<heap, pos>> IN
            /\ slot' = s2 /\ heap' = x[1] /\ pos' = x[2] /\ UNCHANGED <<bin, at>>
       ELSE LET id == IF bin = <<>> THEN Len(slot) + 1 ELSE bin[Len(bin)]
                s2 == IF bin = <<>> THEN Append(slot, n) ELSE [slot EXCEPT ![id] = n]
                h2 == Append(heap, id)
                q2 == IF bin = <<>> THEN Append(pos, Len(h2)) ELSE [pos EXCEPT ![id] = Len(h2)]
                x == Up(s2, h2, q2, Len(h2)) IN
            /\ slot' = s2 /\ heap' = x[1] /\ pos' = x[2]
            /\ bin' = IF bin = <<>> THEN bin ELSE SubSeq(bin, 1, Len(bin) - 1)
            /\ at' = [at EXCEPT ![s] = id]

Pop ==
    /\ heap # <<>>
    /\ hist' = Append(hist, <<"o">>)
    /\ LET id == heap[1]
           last == heap[Len(heap)]
           h2 == IF Len(heap) = 1 THEN <<>> ELSE SubSeq([heap EXCEPT ![1] = last], 1, Len(heap) - 1)
           q2 == IF h2 = <<>> THEN pos ELSE [pos EXCEPT ![last] = 1]
           x == IF h2 = <<>> THEN <<h2, q2>> ELSE Down(slot, h2, q2, 1)
           n == slot[id]
           same == {e \in bag : e.s = n.s /\ e.v = n.v /\ e.u = n.u /\ n.p \in e.ps} IN
       /\ heap' = x[1] /\ pos' = x[2] /\ bin' = Append(bin, id)
       /\ at' = [at EXCEPT ![n.s] = 0] /\ slot' = slot
       /\ got' = \E e \in same : Top(bag, RankOf, e)
       /\ bag' = bag \ same
Clear == /\ hist' = Append(hist, <<"c">>)
         /\ slot' = <<>> /\ pos' = <<>> /\ heap' = <<>> /\ bin' = <<>> /\ at' = [s \in Keys |-> 0]
         /\ bag' = {} /\ got' = TRUE

Next == /\ Len(hist) < Length
        /\ (\E s \in Keys, v \in Values, u \in Bounds : Push(s, v, u)) \/ Pop \/ Clear
Spec == Init /\ [][Next]_vars

(* C13, C14 *)
Answers == got
Refines == /\ Cardinality(bag) = Len(heap)
           /\ \A k \in DOMAIN heap : LET n == slot[heap[k]] IN \E e \in bag : e.s = n.s /\ e.v = n.v /\ e.u = n.u /\ n.p \in e.ps
Ordered == \A k \in DOMAIN heap : k > 1 => ~Less(slot[heap[k \div 2]], slot[heap[k]])
Consistent == /\ \A k \in DOMAIN heap : pos[heap[k]] = k /\ at[slot[heap[k]].s] = heap[k]
              /\ \A s \in Keys : at[s] # 0 => \E k \in DOMAIN heap : heap[k] = at[s]
              /\ \A k \in DOMAIN bin : \A j \in DOMAIN heap : bin[k] # heap[j]
Text(o) == IF o[1] = "p" THEN "p:" \o ToString(o[2]) \o ":" \o ToString(o[3]) \o ":" \o ToString(o[4]) ELSE o[1]
RECURSIVE Texts(_)
Texts(h) == IF h = <<>> THEN "" ELSE Text(Head(h)) \o " " \o Texts(Tail(h))
Emitted == Emit => PrintT("HIST|" \o Texts(hist) \o "|")
=============================================================================
