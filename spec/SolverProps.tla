---------------------------- MODULE SolverProps ----------------------------
(***************************************************************************)
(* What a run of a solver has to report.  o is an outcome:                 *)
(*   fatal ("" or what went wrong), status ("none" for maximize, "proved", *)
(*   "interrupted"), some/value, hassol/sol, lb, ub, fired (the interrupt   *)
(*   asked to stop), explored, exploreddd, domcalls, widthcalls,           *)
(*   stopcalls, after (subproblems begun after the interrupt fired)        *)
(* Each operator yields "" or the reason why the outcome is rejected.      *)
(***************************************************************************)
EXTENDS Problem

Complete(o) == o.status # "interrupted"

Optimal(m, o) ==
    LET opt == Optimum(m) IN
    IF o.fatal # "" THEN "the run does not end: " \o o.fatal
    ELSE IF ~Complete(o) THEN ""
    ELSE IF opt = NEG THEN
        IF o.some THEN "a value for an infeasible problem"
        ELSE IF o.lb # NEG \/ o.ub # NEG THEN "bounds of an infeasible problem" ELSE ""
    ELSE IF ~o.some THEN "no value although the problem is feasible"
    ELSE IF o.value # opt THEN "the value is not the optimum"
    ELSE IF o.lb # opt THEN "the lower bound is not the optimum"
    ELSE IF o.ub # opt THEN "the upper bound is not the optimum"
    ELSE ""

GenuineSolution(m, o) ==
    IF o.fatal # "" THEN ""
    ELSE IF o.some # o.hassol THEN "a value without a solution, or a solution without a value"
    ELSE IF o.message # "" THEN o.message
    ELSE IF ~o.some THEN ""
    ELSE IF ~Genuine(m, o.sol) THEN "the solution is not a feasible complete assignment"
    ELSE IF SolutionValue(m, o.sol) # o.value THEN "the solution does not have the reported value"
    ELSE IF o.lb # o.value THEN "the lower bound is not the value of the solution"
    ELSE ""

Terminates(o) == o.fatal

Anytime(m, o) ==
    LET opt == Optimum(m) IN
    IF o.fatal # "" THEN ""
    ELSE IF o.lb # (IF o.some THEN o.value ELSE NEG) THEN "the lower bound is not the value of the incumbent"
    ELSE IF o.lb > opt THEN "the lower bound exceeds the optimum"
    ELSE IF o.ub < o.lb THEN "the upper bound is below the lower bound"
    ELSE IF o.ub < opt THEN "the upper bound is below the optimum"
    ELSE IF o.status = "interrupted" /\ ~o.fired THEN "reported as interrupted without a request to stop"
    ELSE IF Complete(o) /\ o.lb # opt THEN "reported as proved although the optimum was not established"
    ELSE IF Complete(o) /\ o.lb # o.ub THEN "proved with different bounds"
    ELSE ""

Statistics(m, o, threads) ==
    IF o.fatal # "" THEN ""
    ELSE IF o.exploreddd # o.domcalls THEN "expanded nodes differ from the domain enumerations"
    ELSE IF o.explored < o.widthcalls THEN "more subproblems were compiled than explored"
    ELSE IF threads = 1 /\ o.explored # o.widthcalls THEN "explored subproblems differ from the compiled ones"
    ELSE ""

Prompt(o, threads) ==
    IF o.fatal # "" \/ o.status = "none" THEN ""
    ELSE IF o.stopcalls < o.explored THEN "the interrupt was not consulted before each subproblem"
    ELSE IF o.after > threads - 1 THEN "subproblems were begun after the request to stop"
    ELSE IF o.fired /\ o.status # "interrupted" THEN "the request to stop was ignored"
    ELSE ""

(* nothing pending after a run which was not interrupted; and rubbish in the frontier changes nothing *)
Tidy(m, o) ==
    IF o.left THEN "subproblems are left in the frontier of a completed run"
    ELSE IF o.fatal # "" THEN "the run does not end: " \o o.fatal
    ELSE IF Anytime(m, o) # "" THEN Anytime(m, o)
    ELSE Optimal(m, o)

Verdict(p, m, cfg, o) ==
    CASE p \in {"C01", "C02"} -> Optimal(m, o)
      [] p = "C03" -> GenuineSolution(m, o)
      [] p = "C04" -> Terminates(o)
      [] p = "C05" -> Anytime(m, o)
      [] p = "C17" -> Statistics(m, o, cfg.threads)
      [] p = "C24" -> Prompt(o, cfg.threads)
      [] p = "C29" -> IF cfg.solver = "barrier" THEN "" ELSE IF cfg.junk THEN Tidy(m, o) ELSE IF o.left THEN Tidy(m, o) ELSE ""
=============================================================================
