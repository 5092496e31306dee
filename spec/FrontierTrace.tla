--------------------------- MODULE FrontierTrace ---------------------------
(***************************************************************************)
(* Recorded histories of the real frontiers as behaviours of Frontier: each *)
(* operation must be explained by an action of the specification.           *)
(***************************************************************************)
EXTENDS Frontier, Sequences, TLC, IOUtils, Json

Recs == ndJsonDeserialize(IOEnv.REC)
Walks == 8
VARIABLES r,    \* number of the record
          l,    \* next operation of the record
          P     \* pending subproblems
vars == <<r, l, P>>

Rec == Recs[r]
Op == Rec.ops[l]
Dup == Rec.kind = "simple"
RankOf(s) == Rec.rank[s]

(* the actions of the specification, with what they answer *)
Push == Op.o = "push" /\ P' = Pushed(Dup, P, l, Op.s, Op.v, Op.u)
Match(x) == x.s = Op.s /\ x.v = Op.v /\ x.u = Op.u /\ Op.p \in x.ps
Pop == Op.o = "pop" /\ \E x \in P : Match(x) /\ Top(P, RankOf, x) /\ P' = P \ {x}
PopNone == Op.o = "none" /\ P = {} /\ P' = P
Clear == Op.o = "clear" /\ P' = {}
Length == Op.o = "len" /\ P' = P
Step == /\ l <= Len(Rec.ops)
        /\ Push \/ Pop \/ PopNone \/ Clear \/ Length
        /\ Op.len = Cardinality(P')
        /\ l' = l + 1 /\ r' = r
NextRecord == /\ l > Len(Rec.ops) /\ r + Walks <= Len(Recs)
              /\ r' = r + Walks /\ l' = 1 /\ P' = {}
Init == r \in {k \in 1..Walks : k <= Len(Recs)} /\ l = 1 /\ P = {}
Next == Step \/ NextRecord
Spec == Init /\ [][Next]_vars

Explained == l <= Len(Rec.ops) => ENABLED Step
Why == IF Rec.fatal # "" THEN Rec.fatal
       ELSE "operation " \o ToString(l) \o " (" \o Op.o \o ") is not explained by the specification"
Accepted == (Rec.fatal = "" /\ Explained) \/ (PrintT("REJECT|" \o ToString(r) \o "|" \o Rec.id \o "|" \o Why \o "|") /\ FALSE)
(* the duplicate-free frontier has one entry for each state *)
NoDuplicates == ~Dup => \A x, y \in P : x.s = y.s => x = y
=============================================================================
