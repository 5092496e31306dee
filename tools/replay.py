"""The specifications of the algorithms (DD, Solver): explored by themselves, and run on the
inputs of recorded executions to see whether they explain what the implementation answered.

A record which the specification does not explain is no violation (a property decides that):
the evidence counts it, so that a specification which drifts from the code is noticed."""
import json, os, re, subprocess


def _tlc():
    from __main__ import tlc, errors_of, ToolError
    return tlc, errors_of, ToolError


def solver_spec(check, vh, step):
    """Every interleaving of the solver specification on generated problems."""
    tlc, errors_of, ToolError = _tlc()
    r = subprocess.run([vh, "models", "--seed", str(check.seed), "--count", str(step["models"]), "--size", step["size"]],
                       capture_output=True, text=True, timeout=120)
    if r.returncode != 0:
        raise ToolError("no models: " + r.stderr[-1000:])
    path = os.path.join(check.work, "cfgs")
    kinds = {}
    with open(path, "w") as w:
        for k, line in enumerate(r.stdout.splitlines()):
            c = json.loads(line)
            kind = step["spec"] if step["spec"] != "both" else ("bar" if k % 2 else "all")
            c.update(sgn=0, count=False, outs=[], width=[c["w"]] * (c["m"]["n"] + 1), kind=kind, dup=(kind == "all" and k % 3 == 0),
                     threads=step["threads"], int=step["int"], hist=step["hist"], runs=step["runs"])
            kinds[kind] = kinds.get(kind, 0) + 1
            w.write(json.dumps(c) + "\n")
    ok, out, gen, dist, rc = tlc("Solver.tla", step["cfg"], env={"CFGS": path}, timeout=step["timeout"])
    if not ok:
        raise ToolError("the specification Solver is violated by itself or broken:\n" + errors_of(out))
    check.states += dist
    check.transitions += gen
    check.parts.append({"what": "every interleaving of the solver specification", "config": step["cfg"], "problems": kinds,
                        "threads": step["threads"], "interrupts": step["int"], "runs": step["runs"], "distinct_states": dist, "states_generated": gen})


def run(check, spec, recs, exp):
    tlc, errors_of, ToolError = _tlc()
    thorough = check.tier == "thorough"
    src = os.path.join(check.work, exp + ".replay")
    total = 0
    with open(src, "w") as w:
        if spec == "DD":
            n = 4000 if thorough else 500
            for line in open(recs):
                x = json.loads(line)
                if "comps" not in x or "sgn" not in x or not x["comps"] or any(c["fatal"] for c in x["comps"]):
                    continue
                if sum(len(b) for layer in x["m"]["tr"] for b in layer) > 70:
                    continue
                total += len(x["comps"])
                w.write(line)
                n -= 1
                if n == 0:
                    break
        else:
            n = 150 if thorough else 40
            for line in open(recs):
                x = json.loads(line)
                c, m = x["cfg"], x["m"]
                if "outs" not in x or any(o["fatal"] for o in x["outs"]) or max(o["explored"] for o in x["outs"]) < 2:
                    continue
                if c["again"] or c["solver"] == "lawful" or c["threads"] > 2 or sum(len(b) for layer in m["tr"] for b in layer) > (40 if c["threads"] == 1 else 24):
                    continue
                off = int(c["off"])
                total += len(x["outs"])
                w.write(json.dumps(dict(id=x["id"], m=m, kind="bar" if c["solver"] == "barrier" else "all", dup=c["solver"] == "simple",
                                        cutset=c["cutset"], width=c["width"], threads=c["threads"],
                                        int=any(o["status"] == "interrupted" for o in x["outs"]), hist=False, stubborn=c["stubborn"],
                                        sgn=(off > 0) - (off < 0), count=True, runs=1, outs=x["outs"])) + "\n")
                n -= 1
                if n == 0:
                    break
    if total == 0:
        return
    env = {"REC": src} if spec == "DD" else {"CFGS": src}
    cfg = "DD.cfg" if spec == "DD" else "SolverAgree.cfg"
    try:
        ok, out, gen, dist, rc = tlc(spec + ".tla", cfg, env=env, timeout=600 if thorough else 120)
    except ToolError as e:
        check.parts.append({"what": "inputs of recorded executions run through the specification", "module": spec, "experiment": exp, "unfinished": str(e)})
        return
    same = len(set(re.findall(r"SAME\|(\d+)\|(\d+)\|", out)))
    part = {"what": "inputs of recorded executions run through the specification", "module": spec, "experiment": exp,
            "results": total, "explained_by_the_specification": same, "distinct_states": dist, "states_generated": gen}
    if ok:
        check.states += dist
        check.transitions += gen
    else:
        part["note"] = errors_of(out)[:600]
    check.parts.append(part)


# -- the heap ------------------------------------------------------------------
def heap_spec(c, vh, step):
    """TLC explores every layout of the heap within the constants and proves that it refines the frontier; one history
    for each layout is replayed into the real frontiers, followed by every operation and by the pops which empty them."""
    tlc, errors_of, ToolError = _tlc()
    ok, out, gen, dist, rc = tlc("NoDupHeap.tla", step["cfg"], timeout=step.get("timeout", 600))
    if not ok:
        raise ToolError("the specification NoDupHeap is violated by itself or broken:\n" + errors_of(re.sub(r".*HIST.*\n", "", out)))
    c.states += dist
    c.transitions += gen
    hists = [m for m in re.findall(r'"HIST\|([^|]*)\|"', out)]
    if len(hists) < 1000:
        raise ToolError("the specification NoDupHeap printed no histories")
    path, recs = os.path.join(c.work, "hists"), os.path.join(c.work, "hists.rec")
    with open(path, "w") as w:
        w.write("\n".join(hists) + "\n")
    r = subprocess.run([vh, "replay-frontier", path, recs, "--rank", step["rank"], "--values", str(step["values"]), "--bounds", str(step["bounds"]),
                        "--sample", str(step["sample"])], capture_output=True, text=True, timeout=300 if c.tier == "quick" else 800)
    if r.returncode != 0:
        raise ToolError("the replay of the histories failed: " + r.stderr[-2000:])
    counts = json.loads(r.stdout.strip().splitlines()[-1])
    n = sum(1 for _ in open(recs))
    c.parts.append({"what": "specification of the heap checked by TLC, a history for each layout replayed into the implementation", "module": "NoDupHeap",
                    "config": step["cfg"], "distinct_states": dist, "states_generated": gen, "histories": len(hists), "replayed": counts["histories"], "judged_by_TLC": n})
    c.judge(recs, "FrontierTrace", "heap", n)


def util_spec(c, vh, step):
    """TLC explores the machine of a utility and prints its behaviours; each is replayed into the real one."""
    tlc, errors_of, ToolError = _tlc()
    ok, out, gen, dist, rc = tlc(step["module"] + ".tla", step["cfg"], timeout=step.get("timeout", 600))
    if not ok:
        raise ToolError(f"the specification {step['module']} is violated by itself or broken:\n" + errors_of(re.sub(r".*UTIL.*\n", "", out)))
    c.states += dist
    c.transitions += gen
    what = step["what"]
    got = {m for m in re.findall(r'"UTIL\|([^|]*)\|"', out)}
    if what == "bit":
        got = {x.split(";")[0] for x in got}
    if len(got) < 50:
        raise ToolError(f"the specification {step['module']} printed no behaviours")
    path, recs = os.path.join(c.work, "util"), os.path.join(c.work, "util.rec")
    with open(path, "w") as w:
        w.writelines(f"{what} {x}\n" for x in sorted(got))
    r = subprocess.run([vh, "replay-util", path, recs, "--sample", str(step["sample"])], capture_output=True, text=True, timeout=300 if c.tier == "quick" else 800)
    if r.returncode != 0:
        raise ToolError("the replay of the behaviours failed: " + r.stderr[-2000:])
    counts = json.loads(r.stdout.strip().splitlines()[-1])
    n = sum(1 for _ in open(recs))
    c.parts.append({"what": "specification of the utility checked by TLC, every behaviour replayed into the implementation", "module": step["module"], "config": step["cfg"],
                    "distinct_states": dist, "states_generated": gen, "behaviours": len(got), "replayed": counts["replayed"], "judged_by_TLC": n})
    c.judge(recs, "Judge", what, n)
