--------------------------------- MODULE DD ---------------------------------
(***************************************************************************)
(* Compilations of decision diagrams, as a transition system: each step    *)
(* develops one layer; what is left open by the order of hash tables and   *)
(* by unstable sorts is a choice.  The inputs (models, subproblems, widths, *)
(* bounds, thresholds) are those of the records in REC, so that every      *)
(* finished compilation of the specification is checked twice: against the  *)
(* properties (DiagramProps) and against what the implementation answered.  *)
(***************************************************************************)
EXTENDS DDCore, IOUtils, Json

D == INSTANCE DiagramProps
Recs == ndJsonDeserialize(IOEnv.REC)
VARIABLES i, c, dd, T
vars == <<i, c, dd, T>>

M == Recs[i].m
RECURSIVE SetToSeq(_)
SetToSeq(X) == IF X = {} THEN <<>> ELSE LET x == CHOOSE y \in X : TRUE IN <<x>> \o SetToSeq(X \ {x})
Comp == Recs[i].comps[c]
Table(m, t) == [j \in 1..(m.n + 1) |-> [b \in 1..m.nb[j] |->
    LET H == {x \in Range(t) : x.d = j - 1 /\ Range(x.set) = {b}} IN
    IF H = {} THEN NoThreshold ELSE LET x == CHOOSE y \in H : TRUE IN [in |-> TRUE, th |-> x.th, ex |-> x.ex]]]
Listed(m, A) == {[d |-> z[1] - 1, set |-> <<z[2]>>, th |-> A[z[1]][z[2]].th, ex |-> A[z[1]][z[2]].ex] :
                 z \in {<<j, b>> \in (1..(m.n + 1)) \X (1..D!Widest(m)) : b <= m.nb[j] /\ A[j][b].in}}
Begun(r, x) == Start(IF r.dd = "all" THEN "all" ELSE "bar", r.cutset, x.type, x.w,
                     [d |-> x.root.d, b |-> x.root.set[1], v |-> x.root.v, ub |-> x.root.ub, path |-> x.root.path, sgn |-> r.sgn], x.lb)

Init == /\ i \in DOMAIN Recs /\ c = 1 /\ Recs[i].comps # <<>>
        /\ dd = Begun(Recs[i], Recs[i].comps[1])
        /\ T = Table(Recs[i].m, Recs[i].comps[1].t0)
Over == dd.phase = "layer" /\ (dd.d = M.n \/ dd.nxt = {})
Layer == /\ dd.phase = "layer" /\ ~Over
         /\ \E q \in LayerStep(M, dd, T) : dd' = q[1] /\ T' = q[2]
         /\ UNCHANGED <<i, c>>
End == /\ Over
       /\ dd' \in IF dd.nxt = {} /\ Recs[i].stubborn THEN Emptied(dd) ELSE Ended(dd)
       /\ UNCHANGED <<i, c, T>>
Bottom == /\ dd.phase = "bottom"
          /\ LET z == Finished(dd, T) IN dd' = z[1] /\ T' = z[2]
          /\ UNCHANGED <<i, c>>
Again == /\ dd.phase = "done" /\ c < Len(Recs[i].comps)
         /\ c' = c + 1 /\ i' = i
         /\ dd' = Begun(Recs[i], Recs[i].comps[c + 1])
         /\ T' = Table(M, Recs[i].comps[c + 1].t0)
Step == Layer \/ End \/ Bottom \/ Again
Spec == Init /\ [][Step]_vars

-----------------------------------------------------------------------------
CutList == IF dd.type = "relaxed" THEN Drained(M, dd) ELSE {}
(* the result of a finished compilation, in the form of a record *)
Result == [type |-> Comp.type, w |-> Comp.w, root |-> Comp.root, lb |-> Comp.lb, fatal |-> "",
           t0 |-> Comp.t0, t1 |-> SetToSeq(Listed(M, T)), exact |-> dd.exact,
           some |-> Some(dd), value |-> IF Some(dd) THEN Value(dd) ELSE 0,
           hassol |-> Some(dd), sol |-> IF Some(dd) THEN PathTo(M, dd, dd.best) ELSE <<>>,
           drained |-> dd.type = "relaxed",
           cut |-> SetToSeq({[d |-> n.d, set |-> SetToSeq(n.set), v |-> n.v, path |-> n.path, ub |-> n.ub] : n \in CutList}),
           explored |-> dd.explored, domcalls |-> dd.explored]
Done == dd.phase = "done"
Right == Done => LET x == D!Everything(M, Result) IN x = "" \/ (PrintT("WRONG|" \o Recs[i].id \o "|" \o ToString(c) \o "|" \o x) /\ FALSE)

(* the same as what the implementation answered (paths apart: several may be best)? *)
AsSets(l) == {[d |-> n.d, set |-> Range(n.set), v |-> n.v, ub |-> n.ub] : n \in Range(l)}
ThSets(l) == {[d |-> t.d, b |-> Range(t.set), th |-> IF t.th >= Big THEN INF ELSE t.th, ex |-> t.ex] : t \in Range(l)}
Same == LET R == Result IN
    /\ Comp.fatal = "" /\ Comp.exact = R.exact /\ Comp.some = R.some /\ Comp.explored = R.explored
    /\ (R.some => Comp.value = R.value)
    /\ (Comp.drained => AsSets(Comp.cut) = AsSets(R.cut))
    /\ (dd.kind = "bar" => ThSets(Comp.t1) = ThSets(R.t1))
Agrees == Done /\ Same => PrintT("SAME|" \o ToString(i) \o "|" \o ToString(c) \o "|")
=============================================================================
