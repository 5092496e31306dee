"""Which steps decide which property."""

EXPS = {
    "C01": [("par", 20), ("sys", 8)],
    "C02": [("bar", 20), ("sys", 8)],
    "C03": [("both", 8), ("int", 12), ("sys", 8)],
    "C04": [("int", 12), ("both", 10), ("sys", 8)],
    "C05": [("int", 18), ("both", 4), ("sys", 8)],
    "C06": [("ddr", 15), ("ddt", 5)],
    "C07": [("ddx", 15), ("ddt", 5)],
    "C08": [("dde", 12), ("ddt", 5)],
    "C09": [("ddx", 12), ("ddt", 8)],
    "C10": [("ddx", 12), ("ddt", 8)],
    "C11": [("ddt", 16), ("ddx", 5)],
    "C12": [("ddh", 20)],
    "C13": [("fr", 16)],
    "C14": [("frn", 16)],
    "C15": [("ddl", 20)],
    "C16": [("ddl", 20)],
    "C17": [("both", 14), ("ddh", 6), ("sys", 6)],
    "C18": [("dom", 20)],
    "C19": [("bit", 8)],
    "C20": [("lex", 8)],
    "C21": [("mat", 8)],
    "C22": [("rep", 16)],
    "C24": [("int", 18), ("sys", 8)],
    "C25": [("ord", 20)],
    "C26": [("gen", 20)],
    "C23": [("examples", 20)],
    "C27": [("tmo", 12)],
    "C28": [("opt", 14)],
    "C30": [("twi", 16)],
    "C31": [("tig", 18)],
    "C29": [("par", 10), ("both", 4), ("int", 5)],
}
ASSUMPTIONS = {}


def judge_of(exp):
    return "FrontierTrace" if exp in ("fr", "frn", "frs") else "Judge"


# specifications of the algorithms themselves, explored by TLC: every interleaving of the threads
# on small problems (two threads on every change, three in the thorough tier)
def _solver(kind, intr=False, hist=False, models=40, size="m", threads=2, tier="quick", cfg="Solver.cfg", timeout=400, runs=1):
    return {"kind": "solver_spec", "spec": kind, "int": intr, "hist": hist, "models": models, "size": size,
            "threads": threads, "tier": tier, "cfg": cfg, "timeout": timeout, "runs": runs}


DESIGN = {
    "C01": [_solver("all"), _solver("all", size="m", models=100, threads=3, tier="thorough")],
    "C02": [_solver("bar"), _solver("bar", size="m", models=100, threads=3, tier="thorough", timeout=850)],
    "C04": [_solver("both", intr=True, models=30), _solver("both", intr=True, models=16, cfg="SolverLive.cfg"),
            _solver("both", intr=True, models=60, threads=3, tier="thorough", timeout=850),
            _solver("both", intr=True, models=60, cfg="SolverLive.cfg", tier="thorough", timeout=850)],
    "C05": [_solver("both", intr=True), _solver("both", intr=True, models=16, runs=2), _solver("both", intr=True, models=60, threads=2, runs=3, tier="thorough", timeout=850),
            _solver("both", intr=True, models=60, threads=3, tier="thorough", timeout=850)],
    "C17": [_solver("both", models=20)],
    "C18": [_solver("bar", hist=True), _solver("bar", hist=True, models=60, threads=3, tier="thorough", timeout=850)],
    "C25": [_solver("both", intr=True, models=150, threads=1), _solver("both", intr=True, models=1500, threads=1, tier="thorough", timeout=850)],
    "C26": [_solver("both", intr=True, models=30), _solver("both", intr=True, models=60, threads=3, tier="thorough", timeout=850)],
    "C24": [_solver("both", intr=True), _solver("both", intr=True, models=60, threads=3, tier="thorough", timeout=850)],
}
DESIGN["C31"] = [_solver("both", intr=True), _solver("both", intr=True, models=60, threads=3, tier="thorough", timeout=850)]
DESIGN["C27"] = [{"kind": "design", "module": "Timeout", "cfg": "Timeout.cfg"}]
for _p, _what, _module, _sample in (("C19", "bit", "Bits", 40), ("C20", "lex", "Bits", 3000), ("C21", "mat", "Cells", 200)):
    DESIGN[_p] = [{"kind": "util_spec", "what": _what, "module": _module, "cfg": _module + ".cfg", "sample": _sample, "tier": "quick"},
                  {"kind": "util_spec", "what": _what, "module": _module, "cfg": _module + "Deep.cfg", "sample": _sample * 10, "tier": "thorough", "timeout": 850}]
# experiments whose inputs are also run through the specification of the algorithm
REPLAY = {"ddh": "DD", "ddt": "DD", "ddx": "DD", "ddr": "DD", "dde": "DD", "par": "Solver", "bar": "Solver", "int": "Solver", "both": "Solver", "sys": "Solver"}


def steps(prop, tier):
    out = []
    thorough = tier == "thorough"
    for d in DESIGN.get(prop, []):
        if d.get("tier", "both") in ("both", tier):
            out.append(dict(d, kind=d.get("kind", "design")))
    for exp, secs in EXPS.get(prop, []):
        ms = secs * 1000 * (12 if thorough else 1)
        quota = 1500 if thorough else 400
        if exp == "examples":
            out.append({"kind": "examples", "secs": 240 if thorough else secs, "quota": 300 if thorough else 60})
            continue
        if judge_of(exp) == "FrontierTrace":
            quota = 500 if thorough else 120
        out.append({"kind": "exp", "exp": exp, "ms": ms, "quota": quota, "judge": judge_of(exp), "replay": REPLAY.get(exp), "deep": int(thorough)})
    if prop in HEAP:
        out.append(dict(HEAP[prop][thorough], kind="heap_spec"))
    return out


# the layouts of the heap: one history for each, replayed into the real frontiers
_heap = ({"cfg": "NoDupHeap.cfg", "rank": "0,1,1,2", "values": 2, "bounds": 2, "sample": 4000},
         {"cfg": "NoDupHeapDeep.cfg", "rank": "0,1,1,2,2", "values": 2, "bounds": 2, "sample": 20000, "timeout": 800})
HEAP = {"C13": _heap, "C14": _heap}


_SOLVER = "executions of the real solver under a deterministic thread scheduler, validated by TLC against the TLA+ specification (SolverProps over Problem)"
_DD = "compilations of the real decision diagrams, validated by TLC against the TLA+ specification (DiagramProps over Problem)"
_TRUST = ("Assumes the recording harness reports the calls faithfully, the stand-in for parking_lot has its semantics, and TLC is correct; "
          "the cases handed to TLC are a sample of the executions plus every one a prescreen finds suspicious. ")
NOTES = {
    "C01": (_SOLVER, "Bounded: random table problems (up to 9 variables), widths 1-4, 1-4 threads, random/priority/round-robin schedules. " + _TRUST),
    "C02": (_SOLVER, "Bounded as C01, for the barrier solver, with scheduling points at every barrier lock. " + _TRUST),
    "C03": (_SOLVER, "Bounded as C01, all solvers and interruptions. " + _TRUST),
    "C04": (_SOLVER, "Deadlocks, livelocks, panics and hangs of the scheduled executions; bounded as C01. " + _TRUST),
    "C05": (_SOLVER, "Interrupts at every kind of point; bounded as C01. " + _TRUST),
    "C06": (_DD, "Random subproblems of random table problems up to 6 variables. " + _TRUST),
    "C07": (_DD, "As C06. " + _TRUST),
    "C08": (_DD, "As C06. " + _TRUST),
    "C09": (_DD, "As C06, both cutset types, with and without thresholds set beforehand. " + _TRUST),
    "C10": (_DD, "As C09. " + _TRUST),
    "C11": (_DD, "As C09. " + _TRUST),
    "C12": (_DD, "Sequences of compilations on one diagram object. " + _TRUST),
    "C13": ("recorded operation histories of the real frontiers, validated step by step by TLC as behaviours of the TLA+ frontier specification", "Random histories up to 1400 operations and 300 pending subproblems. " + _TRUST),
    "C14": ("recorded operation histories of the real frontier, validated step by step by TLC as behaviours of the TLA+ frontier specification", "As C13. " + _TRUST),
    "C15": (_DD, "Layers rebuilt from the calls to the problem and the relaxation. " + _TRUST),
    "C16": (_DD, "As C15. " + _TRUST),
    "C17": (_SOLVER, "Bounded as C01. " + _TRUST),
    "C18": (_SOLVER, "Up to four threads; the starts observed through the hook in process_one_node, their order through those of the frontier. " + _TRUST),
    "C19": ("recorded iterations of the real bitsets, validated by TLC against the TLA+ specification", "Every behaviour of a word-level model with short words, and random bitsets up to 400 bits. " + _TRUST),
    "C20": ("recorded comparisons of real bitsets, validated by TLC against the TLA+ specification", "Every pair of a word-level model with short words, and random triples of bitsets up to 400 bits. " + _TRUST),
    "C21": ("recorded accesses to real matrices, validated by TLC against the TLA+ specification", "Every behaviour of a model of small matrices, and random matrices up to 9x9. " + _TRUST),
    "C22": ("recorded runs of solve_timeout with the printed line, validated by TLC against the TLA+ specification", "Real threads, real time limits. " + _TRUST),
    "C24": (_SOLVER, "As C05. " + _TRUST),
}
NOTES["C23"] = ("runs of the real example programs on random instances, the reported optimum validated by TLC against the TLA+ specification of the three problems",
                "Random instances up to 7 cities, 6 departments, 8 periods and 4 items; integral distances and changeover costs satisfying the triangle inequality; real threads. " + _TRUST)
NOTES["C25"] = (_SOLVER, "Up to four threads; the starts observed through the hook in process_one_node, their order through those of the frontier. " + _TRUST)
NOTES["C26"] = (_SOLVER, "As C01, the starts observed through the hook in process_one_node. " + _TRUST)
NOTES["C28"] = ("records of parsed names and command lines, of runs of solve_timeout next to runs of the solver it names, and of the threads which meet at work, validated by TLC against the TLA+ specification",
                "Runs are compared with one thread, total rankings, and only when three direct runs agree. " + _TRUST)
NOTES["C30"] = ("pairs of recorded runs of the real solvers with one thread, compared by TLC with the TLA+ specification", "One thread, both solvers, all frontiers. " + _TRUST)
NOTES["C31"] = (_SOLVER, "As C05; what is pending is rebuilt from the operations on the frontier (the simple and the duplicate-free one). " + _TRUST)
NOTES["C29"] = (_SOLVER, "As C01; frontiers filled with rubbish beforehand, simple, duplicate-free and arbitrary lawful ones. " + _TRUST)
NOTES["C27"] = ("outcomes of processes which run the real time-out helper, validated by TLC against the TLA+ specification of the two threads and their switch (explored exhaustively)",
                "Real threads and time: actions which end before, around and after the deadline and while the last function runs. " + _TRUST)
NOT_APPLICABLE = {}
