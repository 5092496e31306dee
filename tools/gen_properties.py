import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))
NOT="The repository's tests only cover the node flags and two doc examples; no test compiles a diagram or runs a solver, so nothing samples this quantifier."
p("C01","The parallel solver proves the true optimum",
 "When a run of the parallel branch-and-bound solver is not cut off, its best value is the optimum of the problem (none exactly when no feasible solution exists), and its lower and upper bounds both equal that optimum. This holds for either cutset type, either frontier, every maximum width of at least one, every number of threads of at least one, and every thread interleaving, for any problem with an admissible estimate and a valid relaxation, including negative values and infeasible branches, and whatever runs of the same solver object preceded it, interrupted or not.",
 ["inputs","configurations","schedules"],"all finite problems with a valid relaxation, admissible estimate and any ranking; all widths >= 1, cutset types, frontiers, thread counts >= 1 and interleavings",
 NOT,["src/solver/parallel.rs","src/mdd/with_all.rs","src/frontier/simple.rs","src/frontier/no_dup.rs"],
 [("branch-and-bound loop and its termination test","src/solver/parallel.rs get_workload/process_one_node"),("restricted/relaxed compilation, cutset","src/mdd/with_all.rs")],
 ["Solver::best_value, best_lower_bound, best_upper_bound after maximize / maximize_with_interrupt"])
p("C02","The barrier solver proves the true optimum",
 "When a run of the barrier solver is not cut off, its best value is the optimum of the problem (none exactly when no feasible solution exists), and its lower and upper bounds both equal that optimum: pruning by the thresholds shared between diagrams and threads never loses the optimum. This holds for either cutset type, every maximum width of at least one, every number of threads of at least one, every interleaving of the threads' accesses to the shared thresholds, and whatever runs of the same solver object preceded it, interrupted or not.",
 ["inputs","configurations","schedules"],"all finite problems with a valid relaxation and admissible estimate; all widths >= 1, cutset types, thread counts >= 1, interleavings of threshold reads/updates, layer clean-ups and queue operations",
 NOT,["src/solver/barrier.rs","src/mdd/with_barrier.rs","src/frontier/no_dup.rs"],
 [("threshold computation and early updates","src/mdd/with_barrier.rs compute_local_bounds_and_theta/try_update_barrier"),("pop rule and barrier clean-up","src/solver/barrier.rs get_workload")],
 ["Solver::best_value, bounds; the thresholds handed to Barrier::new"])
p("C03","Every reported solution is genuine",
 "Whenever a solver reports a best value it also reports a solution, and vice versa; that solution assigns every variable exactly once with feasible decisions, and its objective value (initial value plus transition costs along the exact transitions) is exactly the reported value and the reported lower bound. This also holds when the run was interrupted.",
 ["inputs","configurations","schedules"],"all problems, solver configurations, interleavings and cut-off points",
 NOT,["src/solver/parallel.rs","src/solver/barrier.rs","src/mdd/with_all.rs","src/mdd/with_barrier.rs"],
 [("best path reconstruction","_best_path_partial_borrow in both diagrams"),("incumbent update","maybe_update_best in both solvers")],
 ["best_solution, best_value, best_solution_so_far, best_value_so_far"])
p("C04","Solvers always terminate",
 "Every run of a solver terminates without a crash, deadlock or livelock, whatever the interleaving of its threads: no waiting thread is ever left without a wake-up, whether the search runs to completion, is cut off by the interrupt at any point, finds the problem infeasible, or has its number of threads changed after construction.",
 ["schedules","inputs","configurations","fault_sequences"],"all interleavings and cut-off points, all thread counts >= 1 (also set through with_nb_threads), all finite problems",
 NOT,["src/solver/parallel.rs","src/solver/barrier.rs"],
 [("waiting on the monitor and the notification at the end of a node","get_workload/notify_node_finished"),("a cutset node is strictly deeper than the node it comes from","relax guard in src/mdd")],
 ["return of maximize / maximize_with_interrupt"])
p("C05","Anytime bounds bracket the optimum",
 "At the end of every run, interrupted or not, the first of a solver object or a further one, the lower bound is the value of the incumbent (minimum integer if none), it does not exceed the optimum, and the upper bound is at least the optimum and at least the lower bound. The run is reported as proved, with equal bounds, unless the cut-off was actually requested before the search completed; it is never reported as proved when the optimum was not established. The same holds of what a solver object says before its first run.",
 ["inputs","schedules","fault_sequences"],"all problems, configurations, interleavings and all points at which the interrupt may fire",
 NOT,["src/solver/parallel.rs","src/solver/barrier.rs"],
 [("bound computed when the interrupt fires","get_workload"),("per-thread bounds of the ongoing nodes","upper_bounds")],
 ["maximize_with_interrupt status, best_lower_bound, best_upper_bound"])
p("C06","Restricted diagrams under-approximate",
 "Compiling a restricted decision diagram from any subproblem yields a best value only if some completion of that subproblem attains it, and the best solution is then a genuine complete solution of that value; so the value never exceeds the true optimum of the subproblem. If the diagram is reported exact, the optimum of the subproblem is its best value or does not exceed the given lower bound; a diagram that dropped no node is reported exact.",
 ["inputs","configurations"],"all problems, subproblems (state, value, path, bound), lower bounds, widths >= 1, both diagram types",
 NOT,["src/mdd/with_all.rs","src/mdd/with_barrier.rs"],[("restrict, branch_on, _is_exact","src/mdd")],["DecisionDiagram::best_value/best_solution/is_exact"])
p("C07","Relaxed diagrams over-approximate",
 "Compiling a relaxed decision diagram from any subproblem yields a best value that is at least the optimum of the subproblem whenever that optimum exceeds the given lower bound. If the diagram is reported exact, that value is the optimum and the best solution is genuine.",
 ["inputs","configurations"],"all problems, valid relaxations, subproblems, lower bounds, widths >= 1, both diagram types and cutset types",
 NOT,["src/mdd/with_all.rs","src/mdd/with_barrier.rs"],[("relax, branch_on","src/mdd"),("has_exact_best_path","src/mdd")],["DecisionDiagram::best_value/best_solution/is_exact"])
p("C08","Exact diagrams solve their subproblem",
 "Compiling an exact decision diagram from any subproblem reports exact, and its best value and solution are the optimum of the subproblem and a genuine solution attaining it, provided this optimum exceeds the given lower bound; otherwise it reports no value above the lower bound.",
 ["inputs"],"all problems, subproblems and lower bounds, both diagram types",
 NOT,["src/mdd/with_all.rs","src/mdd/with_barrier.rs"],[("layer expansion and bound pruning","_compile")],["DecisionDiagram::best_value/best_solution/is_exact"])
p("C09","Cutsets cover every improving solution",
 "If a relaxed diagram compiled from a subproblem is not exact, then every completion of the subproblem that improves on the given lower bound passes through the state of some drained cutset node whose value is at least the value with which that completion reaches the state (for the barrier diagram: or through a state already covered by a threshold that existed before). Hence branching on the cutset loses no improving optimum, for both cutset types.",
 ["inputs","configurations"],"all problems with valid relaxations, subproblems, widths, lower bounds, cutset types, contents of the thresholds",
 NOT,["src/mdd/with_all.rs","src/mdd/with_barrier.rs"],[("last exact layer and frontier cutset","relax / compute_local_bounds")],["DecisionDiagram::drain_cutset"])
p("C10","Cutset nodes are genuine subproblems with admissible bounds",
 "Every node drained from the cutset is a reachable exact subproblem strictly deeper than the root of the diagram: following its path from the initial state with the exact transitions is feasible and yields exactly its state and its value. Its upper bound is at least the value of every completion of it that improves on the given lower bound, and is at most the best value of the relaxed diagram and at most its value plus the problem's estimate for its state.",
 ["inputs","configurations"],"all problems with valid relaxations and admissible estimates, subproblems, widths, lower bounds, cutset types, both diagrams",
 NOT,["src/mdd/with_all.rs","src/mdd/with_barrier.rs"],[("local bounds","compute_local_bounds"),("drain","_drain_cutset")],["SubProblem values passed by drain_cutset"])
p("C11","Barrier thresholds only discard covered subproblems",
 "After a relaxed compilation with the barrier diagram, every threshold it wrote is sound: any subproblem with that state, at that depth, and a value not above the threshold has no completion that improves on both the lower bound and the (exact) value found, other than those passing through a drained cutset node the search will still expand or a state covered by an earlier threshold. A threshold marked as explored never blocks the very cutset node that is to carry its completions.",
 ["inputs","histories","configurations"],"all problems, subproblems, lower bounds, widths, cutset types, all initial contents of the thresholds",
 NOT,["src/mdd/with_barrier.rs","src/solver/barrier.rs"],[("theta propagation","compute_local_bounds_and_theta"),("threshold update rule","try_update_barrier")],["contents of the shared barriers after compile"])
p("C12","A diagram's result depends only on its input",
 "A decision diagram object can be reused: the value, exactness, solution and cutset obtained from a compilation satisfy the guarantees of its own input whatever was compiled before with the same object (other modes, other subproblems, undrained or partially used cutsets), exactly as with a new object.",
 ["histories","inputs"],"all sequences of compilations on one diagram object",
 NOT,["src/mdd/with_all.rs","src/mdd/with_barrier.rs"],[("clear at the start of compile","clear")],["results of successive compile calls"])
p("C13","Frontiers pop in descending bound order and lose nothing",
 "Over any sequence of pushes, pops and clears, a pop returns a pending subproblem whose upper bound is the greatest among all pending ones, ties broken by the ranking, and removes exactly it; nothing is lost, duplicated or invented, pop returns none exactly when nothing is pending, and the length is always the number of pending subproblems.",
 ["histories","inputs"],"all sequences of push, pop, clear with arbitrary bounds, values and states, for both frontiers",
 NOT,["src/frontier/mod.rs","src/frontier/simple.rs","src/frontier/no_dup.rs"],[("binary heaps","src/frontier")],["Frontier::push/pop/clear/len/is_empty"])
p("C14","The duplicate-free frontier keeps the best of each state",
 "The duplicate-free frontier never holds two subproblems with the same state; pushing a subproblem whose state is pending keeps a single entry with the greatest of the values, the path that goes with that value, and the greatest of the upper bounds, and this entry is ordered by that bound. A state that was popped can be pushed anew.",
 ["histories","inputs"],"all sequences of push, pop, clear with repeated states",
 NOT,["src/frontier/no_dup.rs"],[("state index, in-place update, heap repair","NoDupFrontier::push")],["Frontier::push/pop/len"])
p("C15","Width limits are respected and the best nodes are kept",
 "In a restricted diagram no layer expands more nodes than the maximum width, and in a relaxed diagram no layer beyond the first below the root does. When a layer is too wide, the nodes dropped or merged are never better than the ones kept: they have a smaller value or, with equal values, are not ranked above them.",
 ["inputs","configurations"],"all problems, rankings, subproblems and widths >= 1, both diagram types",
 NOT,["src/mdd/with_all.rs","src/mdd/with_barrier.rs"],[("restrict and relax","src/mdd")],["calls to for_each_in_domain, merge and transition during compile"])
p("C16","The relaxation operators are called according to their contract",
 "During a relaxed compilation, merge receives two or more distinct states of one layer, and the cost of every arc entering a merged-away node is relaxed with its actual source state, its actual destination state, the merged state, its decision and its cost; no such arc is left out. Transitions are only ever applied to decisions enumerated for that state, and (in every mode) the next variable is chosen from exactly the states of the layer.",
 ["inputs","configurations"],"all problems, relaxations, subproblems and widths >= 1, both diagram types",
 NOT,["src/mdd/with_all.rs","src/mdd/with_barrier.rs"],[("arc redirection","relax")],["calls to Relaxation::merge and Relaxation::relax"])
p("C17","Search statistics are exact",
 "After a run, the number of expanded diagram nodes reported by a solver equals the number of domain enumerations performed on the problem over all diagrams, whatever the number of threads, and the number of explored subproblems is at least the number of subproblems for which a diagram was compiled, and equal to it with a single thread. A diagram's own count is the number of nodes expanded by its last compilation.",
 ["inputs","schedules","configurations"],"all problems, configurations, interleavings and cut-off points",
 NOT,["src/solver/parallel.rs","src/solver/barrier.rs","src/mdd/with_all.rs","src/mdd/with_barrier.rs"],[("counters","process_one_node, notify_node_finished, get_workload")],["get_explored, get_explored_dd"])
p("C18","The barrier solver never expands a dominated subproblem twice",
 "Within a run, whatever the number of threads and the interleaving, the barrier solver never starts a subproblem whose state was already started at the same depth unless its value is strictly greater than at every earlier start; the starts being ordered as the subproblems were taken from the frontier.",
 ["inputs","histories","schedules"],"all problems, configurations, thread counts and interleavings",
 NOT,["src/solver/barrier.rs","src/mdd/with_barrier.rs"],[("pop rule","get_workload"),("threshold update","try_update_barrier")],["states and values for which max_width / diagrams are requested"])
p("C19","Bitset iteration yields exactly the members in order",
 "Iterating over a bitset yields exactly the positions of its one bits, each once, in strictly increasing order, and then ends for good; whatever the capacity, the number of words, and the density.",
 ["inputs"],"all bitsets of any capacity","The doc example shows one 5-bit set; word boundaries and dense or empty words are not sampled.",
 ["src/utils.rs"],[("BitSetIter","src/utils.rs")],["Iterator::next"])
p("C20","Lexicographic bitset comparison is a total order",
 "Comparing two bitsets is decided by their lowest differing bit (the one without the bit is smaller; a shorter bitset is extended with zeros), so comparison is reflexive, antisymmetric, transitive and total, equality agrees with it, and partial comparison agrees with total comparison.",
 ["inputs"],"all pairs and triples of bitsets, of equal or different capacities","One doc example with 5-bit sets.",
 ["src/utils.rs"],[("LexBitSet","src/utils.rs")],["Ord, PartialOrd, Eq"])
p("C21","Matrix cells are independent",
 "A matrix created with given numbers of columns and rows has exactly rows times columns cells, all holding the default or given item; writing one cell is read back at that index and changes no other cell, whether or not the matrix is square.",
 ["inputs","histories"],"all shapes and sequences of writes and reads","The only example does not compile and is square.",
 ["src/utils.rs"],[("Matrix","src/utils.rs")],["Index, IndexMut"])
p("C22","The experiment report agrees with the run",
 "The result line printed by the experiment runner and the value it returns agree with the run: status, best value, bounds (equal when proved), and counts are those of the solver, the returned value is the printed upper bound, a proved run has gap 0, and the printed duration is that of the run, the header names the columns of the line in their order, and the gap is, for all bounds the solvers can report, the difference of the magnitudes of the two bounds divided by the greater magnitude, a number in [0,1].",
 ["inputs","configurations","fault_sequences"],"all problems, solver and cutset choices, timeouts (including none), infeasible problems",
 NOT,["src/xputils.rs"],[("solve_timeout, gap","src/xputils.rs")],["standard output and return value of solve_timeout"])
p("C23","The example models report the true optimum",
 "The tsptw, psp and srflp programs, run on any well-formed instance (distances and changeover costs obeying the triangle inequality) without hitting the time limit, report Proved with the optimum of that instance, for both solvers, both cutset types, and any width factor and number of threads.",
 ["inputs","configurations"],"all small instances of the three problems, solver, cutset, width and thread options",
 "No test runs the examples.",["examples/tsptw","examples/psp","examples/srflp"],[("models, relaxations and bounds","examples/*/model.rs, relax.rs, psp.rs")],["printed result line"])
p("C24","A requested cut-off stops the search promptly",
 "The interrupt is consulted before each subproblem is handed to a thread, and once it has asked to stop no further subproblem is handed out: each thread at most finishes the subproblem it already holds, then the run returns as interrupted.",
 ["schedules","fault_sequences","inputs"],"all problems, thread counts, interleavings and points at which the interrupt fires",
 NOT,["src/solver/parallel.rs","src/solver/barrier.rs"],[("interrupt test in the work dispatch","get_workload")],["calls of the interrupt closure, max_width and the diagrams' callbacks, returned status"])
p("C25","With one thread the search is best-first",
 "With one thread, either solver compiles its subproblems in non-increasing order of their upper bounds, and never compiles a subproblem whose upper bound is below the optimum of the problem, interrupted or not.",
 ["inputs","configurations","histories"],"all problems, cutset types, frontiers, widths >= 1, single-threaded runs, complete or interrupted",
 NOT,["src/solver/parallel.rs","src/solver/barrier.rs","src/frontier/simple.rs","src/frontier/no_dup.rs"],[("bound of a cutset node capped by its parent's","enqueue_cutset"),("pop of the best node, pruning by the lower bound","get_workload")],["subproblems for which diagrams are compiled, in order (path, value, upper bound)"])
p("C26","Every compiled subproblem is a genuine partial solution of the search",
 "Every subproblem for which a solver compiles diagrams is a partial solution: its path assigns the leading variables, each once, with feasible decisions, its value is the initial value plus the costs along that path, and it strictly extends a subproblem compiled earlier in the run; only the root, the first one compiled, has an empty path. This holds for any number of threads and every interleaving.",
 ["inputs","configurations","schedules"],"all problems, configurations, thread counts and interleavings",
 NOT,["src/solver/parallel.rs","src/solver/barrier.rs","src/frontier/no_dup.rs","src/mdd/with_all.rs","src/mdd/with_barrier.rs"],[("hand-over of cutset nodes through the frontier","enqueue_cutset, get_workload"),("paths of cutset nodes","drain_cutset")],["subproblems for which diagrams are compiled, in order (path, value, upper bound)"])
p("C27","The time-out helper ends the process exactly one way",
 "timeout(duration, action, last) never returns and ends the process: either with status 0, after the action has finished and without the last function having been called, or with status 1, after the last function was called exactly once, not before the duration was over, and has returned; never in the middle of the last function, and it does end the process when the action goes on beyond the duration.",
 ["schedules","inputs"],"all durations, actions and last functions, and all orders in which the end of the action and the end of the duration can fall",
 NOT,["src/xputils.rs"],[("timeout","src/xputils.rs")],["exit status of the process, calls of the two functions"])
p("C28","The configuration asked for is the configuration that runs",
 "The names 'parallel', 'barrier', 'lel' and 'frontier' parse to the solver or cutset they name and print back as the same name, every other string is rejected; a command line yields exactly the given options, with the defaults (60 seconds, parallel, lel, no width, no thread count) for those not given, and is rejected when a value is not valid or the file is missing; solve_timeout runs the solver, cutset type, width heuristic, time limit and number of threads it is given, so that it reports what that solver reports when it is run directly; and a solver puts as many threads to work as it was configured with (all processors by default).",
 ["inputs","configurations"],"all strings, command lines, problems and configurations",
 NOT,["src/xputils.rs","src/prelude.rs","src/solver/parallel.rs","src/solver/barrier.rs","src/heuristics/mod.rs"],[("Args, SolverType, solve_timeout","src/xputils.rs"),("CutsetType","src/prelude.rs"),("custom, new, with_nb_threads","src/solver/*.rs")],["FromStr, Display, StructOpt; calls of the width heuristic; threads calling the problem at the same time"])
p("C29","Frontiers can be handed from run to run",
 "What the frontier given to the parallel solver contained before a run has no influence on the outcome of the run, and a run which is not interrupted leaves it empty; both hold for every frontier that obeys the Frontier trait (greatest bound first), whatever its order among equal bounds and whether or not it unites duplicates.",
 ["histories","schedules","inputs"],"all contents, lawful frontiers, problems, thread counts and interleavings",
 NOT,["src/solver/parallel.rs","src/prelude.rs"],[("initialize, get_workload","src/solver/parallel.rs"),("Frontier","src/prelude.rs")],["len of the frontier after a run, results of the run"])
p("C30","Runs with one thread are reproducible",
 "Two runs with one thread of the same solver configuration on the same deterministic problem, each by a fresh solver with a fresh frontier of the same kind, give the same value, solution, bounds, status and statistics and start the same subproblems in the same order, whatever ran in the process before and wherever the objects lie in memory.",
 ["inputs","histories"],"all problems and configurations, one thread",
 NOT,["src/solver/parallel.rs","src/solver/barrier.rs","src/mdd/with_all.rs","src/mdd/with_barrier.rs","src/frontier/no_dup.rs"],[("layers of a diagram, kept in hash maps","next_l"),("cutsets, in the order of the layers","drain_cutset"),("ties in the frontier","src/frontier/*.rs")],["results of the runs, subproblems started, in order"])
p("C31","The bound left by an interruption is that of an open subproblem",
 "When a run is interrupted, the upper bound it reports is not greater than both its lower bound and the greatest upper bound among the subproblems that were pending or being processed when the interrupt asked to stop: bounds of finished or discarded subproblems play no part, so that the reported bound (and the gap) tightens as the search goes on. This holds for any number of threads and every interleaving.",
 ["schedules","inputs","histories"],"all problems, configurations, thread counts, interleavings and points at which the interrupt fires",
 NOT,["src/solver/parallel.rs","src/solver/barrier.rs"],[("upper_bounds of the threads, open_ub","get_workload"),("end of a subproblem","notify_node_finished")],["best_upper_bound after an interrupted run; operations on the frontier, answers of the interrupt"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
