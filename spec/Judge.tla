------------------------------- MODULE Judge -------------------------------
(***************************************************************************)
(* Checks records of real executions against the properties.  The file      *)
(* named by the environment variable REC holds one record per line, PROP    *)
(* names the property.  The walk visits every record once (eight walks in   *)
(* parallel); a rejected record is named by a REJECT line.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, IOUtils, Json

S == INSTANCE SolverProps
D == INSTANCE DiagramProps
R == INSTANCE RecordProps
X == INSTANCE Examples

Recs == ndJsonDeserialize(IOEnv.REC)
Prop == IOEnv.PROP
Walks == 8
VARIABLE i

FirstOf(seq) == LET B == {k \in DOMAIN seq : seq[k] # ""} IN
    IF B = {} THEN "" ELSE seq[CHOOSE k \in B : \A j \in B : k <= j]
Reason(r) ==
    IF "outs" \in DOMAIN r THEN FirstOf([k \in DOMAIN r.outs |-> S!Verdict(Prop, r.m, r.cfg, r.outs[k])])
    ELSE IF "comps" \in DOMAIN r THEN FirstOf([k \in DOMAIN r.comps |-> D!DVerdict(Prop, r.m, r.comps[k])])
    ELSE IF "x" \in DOMAIN r THEN X!ExampleReason(r)
    ELSE R!RVerdict(Prop, r)

Init == i \in {k \in 1..Walks : k <= Len(Recs)}
Next == i + Walks <= Len(Recs) /\ i' = i + Walks
Spec == Init /\ [][Next]_i

Accepted == LET x == Reason(Recs[i]) IN x = "" \/ (PrintT("REJECT|" \o ToString(i) \o "|" \o Recs[i].id \o "|" \o x \o "|") /\ FALSE)
=============================================================================
