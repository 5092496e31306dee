---------------------------- MODULE RecordProps ----------------------------
(***************************************************************************)
(* What the frontiers, the utilities and the experiment runner have to do. *)
(***************************************************************************)
EXTENDS Problem

-----------------------------------------------------------------------------

-----------------------------------------------------------------------------
(* Bitsets *)
Increasing(s) == \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1]
BitReason(r) ==
    IF r.fatal # "" THEN r.fatal
    ELSE IF Range(r.out) # Range(r.set) THEN "the iteration does not yield the members"
    ELSE IF ~Increasing(r.out) THEN "the iteration is not strictly increasing"
    ELSE IF r.tail # 0 THEN "the iteration goes on after its end"
    ELSE ""
Differ(a, b) == (a \ b) \cup (b \ a)
Order(a, b) == IF a = b THEN 0 ELSE IF Lowest(Differ(a, b)) \in b THEN -1 ELSE 1
Bit(x) == IF x THEN 1 ELSE 0
LexReason(r) ==
    IF r.fatal # "" THEN r.fatal
    ELSE IF \A i, j \in 1..3 :
        LET e == Order(Range(r.sets[i]), Range(r.sets[j])) IN
        r.rel[i][j] = <<e, e, Bit(e = 0), Bit(e # 0), Bit(e < 0), Bit(e <= 0), Bit(e > 0), Bit(e >= 0)>>
    THEN "" ELSE "the comparison is not decided by the lowest differing bit"
(* Matrices *)
RECURSIVE Cells(_, _, _)
Cells(r, i, M) ==
    IF i > Len(r.ops) THEN IF \A a \in 1..r.rows, b \in 1..r.cols : r.fin[a][b] = M[<<a, b>>] THEN "" ELSE "a cell does not hold what was last written to it"
    ELSE LET o == r.ops[i]
             x == <<o[2] + 1, o[3] + 1>>
         IN IF o[1] = 1 THEN Cells(r, i + 1, [M EXCEPT ![x] = o[4]])
            ELSE IF M[x] # o[4] THEN "reading a cell does not yield what was last written to it"
            ELSE Cells(r, i + 1, M)
MatReason(r) ==
    IF r.fatal # "" THEN r.fatal
    ELSE IF r.size # <<r.rows * r.cols, r.rows, r.cols>> THEN "wrong number of cells"
    ELSE Cells(r, 1, [x \in (1..r.rows) \X (1..r.cols) |-> r.item])

-----------------------------------------------------------------------------
(* The experiment runner *)
Abs(x) == IF x < 0 THEN -x ELSE x
(* the gap, in ten-thousandths, is the relative difference of the magnitudes of the bounds (only told for bounds whose magnitudes are known here) *)
GapRight(r) ==
    LET u == Max(Abs(r.lb), Abs(r.ub)) l == Min(Abs(r.lb), Abs(r.ub)) IN
    IF r.cfg.off # "0" \/ Abs(r.ub) > 100000 \/ (r.lb # NEG /\ Abs(r.lb) > 100000) THEN TRUE
    ELSE IF r.lb = NEG THEN r.gap >= 9999
    ELSE IF u = l THEN r.gap = 0
    ELSE Abs(r.gap * u - (u - l) * 10000) <= u
(* what the runner calls the columns of its line, in the order in which it prints them *)
Columns == <<"NAME", "SOLVER", "STATUS", "DURATION", "RAM_(MB)", "BEST-VAL", "LB", "UB", "GAP", "NODES B&B", "NODES DD">>
(* the duration is that of the run: not longer than the call took, nor shorter than the limit which was hit
   or than the work which the problem is known to have made (busy); it is
   printed in hundredths of a second, the times here are in ten-thousandths *)
DurationRight(r) == r.dur >= 0 /\ r.dur <= r.outer + 60 /\ r.dur + 60 >= r.busy /\ (r.status = "Timeout" => r.dur + 60 >= r.limit)
ReportReason(r) ==
    LET opt == Optimum(r.m) IN
    IF r.fatal # "" THEN r.fatal
    ELSE IF r.lines # 1 THEN "not exactly one result line"
    ELSE IF r.pname # r.name THEN "another name"
    ELSE IF r.solver # r.asked THEN "another solver"
    ELSE IF r.status \notin {"Proved", "Timeout"} THEN "unknown status"
    ELSE IF r.status = "Timeout" /\ r.long THEN "Timeout before the time limit"
    ELSE IF r.header # Columns THEN "the header does not name the columns"
    ELSE IF ~DurationRight(r) THEN "the printed duration is not that of the run"
    ELSE IF ~r.mb THEN "the printed memory is no number"
    ELSE IF r.ret # r.ub THEN "the returned value is not the printed upper bound"
    ELSE IF r.gap < 0 \/ r.gap > 10000 THEN "the gap is no number in [0,1]"
    ELSE IF ~GapRight(r) THEN "the gap is not the relative difference of the bounds"
    ELSE IF r.lb # (IF r.some THEN r.value ELSE NEG) THEN "the printed lower bound is not the printed best value"
    ELSE IF r.lb > opt \/ r.ub < opt THEN "the printed bounds do not bracket the optimum"
    ELSE IF r.status = "Proved" /\ (r.some # (opt # NEG) \/ (r.some /\ r.value # opt)) THEN "proved, but not the optimum"
    ELSE IF r.status = "Proved" /\ r.lb # r.ub THEN "proved with different bounds"
    ELSE IF r.status = "Proved" /\ r.gap # 0 THEN "proved with a gap"
    ELSE IF r.exploreddd # r.domcalls THEN "the printed number of diagram nodes is not the number of domain enumerations"
    ELSE IF r.explored < r.widthcalls \/ (r.threads = 1 /\ r.explored # r.widthcalls) THEN "the printed number of subproblems is wrong"
    ELSE ""

-----------------------------------------------------------------------------
(* A subproblem is only started if its value exceeds those of all earlier starts of its state. The order of *)
(* the starts of different threads is that in which they took their subproblems from the frontier.          *)
Starts(r) == SelectSeq(r.evs, LAMBDA e : e.e = "start")
StateOf(m, e) == <<Len(e.path), Walk(m, e.path, Len(e.path)).b>>
StartsAt(r) == {k \in DOMAIN r.evs : r.evs[k].e = "start"}
Taken(r, k) == LET before == {j \in 1..(k - 1) : r.evs[j].e = "pop" /\ r.evs[j].t = r.evs[k].t}
               IN IF before = {} THEN k ELSE CHOOSE j \in before : \A i \in before : i <= j
AgainReason(r) ==
    IF r.out.fatal # "" THEN ""
    ELSE LET at == StartsAt(r)
             w(k) == Walk(r.m, r.evs[k].path, Len(r.evs[k].path))
             key == [k \in at |-> StateOf(r.m, r.evs[k])]
             when == [k \in at |-> Taken(r, k)]
         IN IF \E k \in at : ~w(k).ok THEN "a subproblem was started whose path is not feasible"
            ELSE IF \E i, j \in at : key[i] = key[j] /\ when[i] < when[j] /\ r.evs[j].v <= r.evs[i].v THEN "a dominated subproblem was started again"
            ELSE ""

(* With one thread the search is best-first: bounds never increase, none is below the optimum *)
OrderReason(r) ==
    IF r.out.fatal # "" THEN ""
    ELSE LET st == Starts(r) opt == Optimum(r.m) IN
         IF \E i \in 1..(Len(st) - 1) : st[i + 1].u > st[i].u THEN "a subproblem was started after one with a smaller upper bound"
         ELSE IF \E i \in DOMAIN st : st[i].u < opt THEN "a subproblem was started whose upper bound is below the optimum"
         ELSE ""

(* Whatever is started is a partial solution which extends an earlier one *)
Extends(p, q) == Len(q) < Len(p) /\ Range(q) \subseteq Range(p)
StartReason(r) ==
    IF r.out.fatal # "" THEN ""
    ELSE LET st == Starts(r)
             one(i) == LET e == st[i]
                           w == Walk(r.m, e.path, Len(e.path))
                       IN IF Len(e.path) > r.m.n \/ ~w.ok \/ Cardinality({x[1] : x \in Range(e.path)}) # Len(e.path) THEN "a subproblem was started whose path is not feasible"
                          ELSE IF PathValue(r.m, e.path, w) # e.v THEN "a subproblem was started whose value is not the one of its path"
                          ELSE IF (e.path = <<>>) # (i = 1) THEN "the root was not the first subproblem started, or was started again"
                          ELSE IF i > 1 /\ ~\E j \in 1..(i - 1) : Extends(e.path, st[j].path) THEN "a subproblem was started which extends none started before"
                          ELSE ""
             R == {one(i) : i \in DOMAIN st} \ {""}
         IN IF R = {} THEN "" ELSE CHOOSE x \in R : TRUE

-----------------------------------------------------------------------------
(* The time-out helper: status 0 after the action and without the last function, or status 1 after the last function,
   called once, has returned *)
EndAllowed(code, acted, begun, done) ==
    \/ code = 0 /\ acted /\ begun = 0 /\ done = 0
    \/ code = 1 /\ begun = 1 /\ done = 1
(* r: after (the duration), action, last (how long the two functions take), evs, at0 (when the last function began), in ms *)
TimeoutReason(r) ==
    LET n(e) == Cardinality({k \in DOMAIN r.evs : r.evs[k] = e}) IN
    IF r.fatal # "" THEN r.fatal
    ELSE IF ~EndAllowed(r.code, n("acted") = 1, n("begun"), n("done")) THEN "an end of the process which the specification does not allow"
    ELSE IF n("begun") > 0 /\ r.at0 < r.after THEN "the last function was called before the time was over"
    ELSE IF r.code = 0 /\ r.action > r.after + 10000 THEN "the time-out was ignored"
    ELSE ""

-----------------------------------------------------------------------------
(* The configuration asked for is the one which runs *)
Solvers == {"parallel", "barrier"}
Cutsets == {"lel", "frontier"}
Given(r, o) == \E k \in DOMAIN r.opts : r.opts[k].o = o
Value(r, o, default) == IF Given(r, o) THEN r.opts[CHOOSE k \in DOMAIN r.opts : r.opts[k].o = o].v ELSE default
Understood(r) == /\ Given(r, "file")
                 /\ \A k \in DOMAIN r.opts : r.opts[k].ok
                 /\ Value(r, "solver", "parallel") \in Solvers
                 /\ Value(r, "cutset", "lel") \in Cutsets
OptionReason(r) ==
    IF r.fatal # "" THEN r.fatal
    ELSE CASE r.kind = "name" ->
              IF r.solver # (IF r.s \in Solvers THEN r.s ELSE "err") THEN "the name of a solver is not understood, or something else is"
              ELSE IF r.cutset # (IF r.s \in Cutsets THEN r.s ELSE "err") THEN "the name of a cutset is not understood, or something else is"
              ELSE IF r.back # <<"parallel", "barrier", "lel", "frontier">> THEN "a configuration is not printed by its name" ELSE ""
           [] r.kind = "argv" ->
              IF ~Understood(r) THEN (IF r.err # "rejected" THEN "a wrong command line is accepted" ELSE "")
              ELSE IF r.err # "" THEN "a correct command line is rejected"
              ELSE IF r.got # <<Value(r, "file", ""), Value(r, "width", "-"), Value(r, "timeout", "60"), Value(r, "threads", "-"), Value(r, "solver", "parallel"), Value(r, "cutset", "lel")>>
                   THEN "the command line is read wrongly" ELSE ""
           [] r.kind = "fixed" -> IF r.got # r.w THEN "another width than the fixed one" ELSE ""
           [] r.kind = "threads" ->
              IF r.threads = 0 THEN (IF r.met \in {r.cpus[k] : k \in DOMAIN r.cpus} THEN "" ELSE "not as many threads at work as there are processors")
              ELSE IF r.met # r.threads THEN "not as many threads at work as were asked for" ELSE ""
           [] r.kind = "run" ->
              IF r.zero THEN (IF r.got.status # "Timeout" THEN "no time at all, but not reported as timed out" ELSE "")
              ELSE IF ~r.same THEN "" \* nothing to compare with
              ELSE IF r.got # r.want THEN "the runner does not run the configuration it was given" ELSE ""
           [] OTHER -> "unknown kind of record"

(* Two runs of the same thing, a and b their outcomes, sa and sb what they started *)
TwinReason(r) ==
    IF r.a.fatal # "" THEN ""
    ELSE IF r.b.fatal # "" THEN "the second run does not end: " \o r.b.fatal
    ELSE IF r.a.some # r.b.some \/ r.a.value # r.b.value THEN "the second run has another value"
    ELSE IF r.a.sol # r.b.sol THEN "the second run has another solution"
    ELSE IF r.a.status # r.b.status \/ r.a.lb # r.b.lb \/ r.a.ub # r.b.ub THEN "the second run has other bounds or another status"
    ELSE IF Len(r.sa) # Len(r.sb) \/ \E k \in DOMAIN r.sa : r.sa[k] # r.sb[k] THEN "the second run starts other subproblems, or in another order"
    ELSE IF r.a # r.b THEN "the second run has other statistics"
    ELSE ""

(* A run which was interrupted: no subproblem which was pending or being worked on when the interrupt asked to stop had *)
(* a bound as great as what is reported, unless that is the incumbent. *)
(* A subproblem is being worked on from its pop until its thread consults the interrupt again; what the thread which is told to *)
(* stop has popped and not started is open too.                                                                               *)
Asks(r) == {k \in DOMAIN r.evs : r.evs[k].e = "ask" /\ r.evs[k].ans}
Stopping(r) == CHOOSE k \in Asks(r) : \A j \in Asks(r) : k <= j
Working(r, n) == {k \in 1..(n - 1) : /\ r.evs[k].e = "pop"
                                     /\ ~\E j \in (k + 1)..(n - 1) : r.evs[j].e \in {"pop", "ask"} /\ r.evs[j].t = r.evs[k].t
                                     /\ (r.evs[k].t = r.evs[n].t) => ~\E j \in (k + 1)..(n - 1) : r.evs[j].e = "start" /\ r.evs[j].t = r.evs[k].t}
(* what the frontier holds after the first n events: entries with the positions of their pushes; equal states are one entry, unless it is a simple one *)
RECURSIVE Holds(_, _)
Holds(r, n) ==
    IF n = 0 THEN {}
    ELSE LET e == r.evs[n] H == Holds(r, n - 1) IN
         CASE e.e = "push" -> H \cup {n}
           [] e.e = "clear" -> {}
           [] e.e = "pop" ->
              IF r.cfg.solver = "simple"
              THEN LET same == {k \in H : r.evs[k].path = e.path /\ r.evs[k].v = e.v /\ r.evs[k].u = e.u} IN H \ (IF same = {} THEN {} ELSE {CHOOSE k \in same : TRUE})
              ELSE LET s == StateOf(r.m, e) IN {k \in H : StateOf(r.m, r.evs[k]) # s}
           [] OTHER -> H
TightReason(r) ==
    IF r.out.fatal # "" \/ r.out.status # "interrupted" \/ Asks(r) = {} \/ (r.cfg.solver = "barrier" /\ ~r.hooks) THEN ""
    ELSE LET n == Stopping(r)
             most == MaxOr({r.evs[k].u : k \in Holds(r, n - 1) \cup Working(r, n)}, NEG)
         IN IF r.out.ub > Max(r.out.lb, most) THEN "the upper bound of an interrupted run is greater than the bounds of all open subproblems" ELSE ""

RVerdict(p, r) ==
    CASE FALSE -> ""
      [] p = "C18" -> AgainReason(r)
      [] p = "C19" -> BitReason(r)
      [] p = "C20" -> LexReason(r)
      [] p = "C21" -> MatReason(r)
      [] p = "C25" -> OrderReason(r)
      [] p = "C26" -> StartReason(r)
      [] p = "C22" -> ReportReason(r)
      [] p = "C27" -> TimeoutReason(r)
      [] p = "C28" -> OptionReason(r)
      [] p = "C30" -> TwinReason(r)
      [] p = "C31" -> TightReason(r)
=============================================================================
