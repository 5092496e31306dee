#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decides one property on /repo's current tree.

exit 0: held on everything explored; exit 1: VIOLATION line; exit 2: the check itself failed."""
import glob, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(HERE, "spec")
HARNESS = os.path.join(HERE, "harness")
REPO = "/repo"
EVID = os.path.join(HERE, "evidence")
sys.path.insert(0, os.path.join(HERE, "tools"))
import examples, plan, replay

JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class ToolError(Exception):
    pass


def say(*a):
    print(*a, flush=True)


def cargo_env(target):
    e = dict(os.environ)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TARGET_DIR"] = target
    e["RUSTUP_TOOLCHAIN"] = e.get("RUSTUP_TOOLCHAIN", "stable-x86_64-unknown-linux-gnu")
    e.setdefault("HOME", "/root")
    for k in ("RUSTC_WRAPPER", "RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    return e


def build():
    """Builds the harness against /repo's current tree; the best variant that compiles."""
    variants = [
        ("scheduled", HARNESS, ["--features", "hooks"], ""),
        ("scheduled, no hooks", HARNESS, ["--no-default-features", "--features", "sched"], ""),
        ("unscheduled", os.path.join(HARNESS, "plain"), ["--features", "hooks"], "-plain"),
        ("unscheduled, no hooks", os.path.join(HARNESS, "plain"), [], "-plain"),
    ]
    last = ""
    for name, cwd, feats, suffix in variants:
        target = os.path.join(HARNESS, "target" + suffix)
        r = subprocess.run(["cargo", "build", "--offline"] + feats, cwd=cwd, env=cargo_env(target), capture_output=True, text=True)
        if r.returncode == 0:
            if name != "scheduled":
                say("note: built the harness " + name)
            return os.path.join(target, "debug", "vh"), name
        last = r.stderr[-3000:]
    raise ToolError("the harness does not compile:\n" + last)


def tlc(module, cfg, env=None, args=(), timeout=600, cwd=SPEC, workers=8, heap="8g"):
    """Runs TLC. Returns (ok, output, states generated, distinct states)."""
    meta = tempfile.mkdtemp(prefix="vtlc")
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-Xss64m", "-Xmx" + heap, "-XX:+UseParallelGC", "-cp", JARS, "tlc2.TLC", "-workers", str(workers),
           "-metadir", meta, "-noGenerateSpecTE", "-config", cfg, *args, module]
    try:
        r = subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError(f"TLC did not finish {module} within {timeout} s")
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    out = r.stdout + r.stderr
    m = re.findall(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found", out)
    gen, dist = (int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))) if m else (0, 0)
    if not m:
        m = re.findall(r"The number of states generated: ([\d,]+)", out)
        if m:
            gen = dist = int(m[-1].replace(",", ""))
    ok = r.returncode == 0
    return ok, out, gen, dist, r.returncode


class Check:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.samples, self.parts, self.violations = [], [], []
        self.work = tempfile.mkdtemp(prefix="vcheck")
        self.known = load_known(prop)
        self.told = set()
        self.assumptions = []

    # -- the specification by itself -----------------------------------------
    def design(self, step):
        name = step["module"]
        ok, out, gen, dist, rc = tlc(name + ".tla", step["cfg"], env=self.env(step), args=step.get("args", ()),
                                     timeout=step.get("timeout", 500), workers=step.get("workers", 8))
        if not ok:
            raise ToolError(f"the specification {name} ({step['cfg']}) is violated by itself or broken:\n" + errors_of(out))
        self.states += dist
        self.transitions += gen
        self.parts.append({"what": "specification checked by TLC", "module": name, "config": step["cfg"], "distinct_states": dist, "states_generated": gen})

    def env(self, step):
        e = {"SEED": str(self.seed), "TIER": self.tier}
        e.update(step.get("env", {}))
        return e

    # -- the implementation's executions judged by the specification -----------
    def experiment(self, vh, step):
        exp = step["exp"]
        out = os.path.join(self.work, exp)
        r = subprocess.run([vh, "run", "--exp", exp, "--seed", str(self.seed), "--ms", str(step["ms"]), "--quota", str(step["quota"]), "--out", out, "--deep", str(step.get("deep", 0))],
                           capture_output=True, text=True, timeout=step["ms"] / 1000 + 300)
        if r.returncode != 0:
            raise ToolError(f"the harness failed on {exp}: {r.stderr[-2000:]}")
        counts = {}
        for f in glob.glob(out + ".*.stat"):
            for line in open(f):
                for k, v in json.loads(line).items():
                    counts[k] = counts.get(k, 0) + v
        recs = out + ".all"
        n = 0
        with open(recs, "w") as w:
            for s in range(8):
                p = f"{out}.{s}"
                if os.path.exists(p):
                    for line in open(p):
                        if line.endswith("\n"):
                            w.write(line)
                            n += 1
        if n == 0:
            raise ToolError(f"{exp}: no execution was recorded")
        self.parts.append({"what": "executions of the implementation", "experiment": exp, "counts": counts, "judged_by": step["judge"]})
        self.judge(recs, step["judge"], exp, n)
        if step.get("replay") and not self.violations:
            replay.run(self, step["replay"], recs, exp)

    def judge(self, recs, judge, exp, n):
        """Has TLC judge the records; rejected ones are set aside and the rest judged again."""
        lines = open(recs).read().splitlines()
        if self.samples == [] or len(self.samples) < 4:
            self.samples.append(shorten(lines[len(lines) // 2]))
        for attempt in range(12):
            with open(recs, "w") as w:
                w.write("\n".join(lines) + "\n")
            ok, out, gen, dist, rc = tlc(judge + ".tla", judge + ".cfg", env={"REC": recs, "PROP": self.prop}, timeout=700)
            rej = re.findall(r'REJECT\|(\d+)\|([^|]*)\|([^|]*)\|', out)
            if ok:
                self.states += dist
                self.transitions += gen
                self.traces += len(lines)
                break
            if not rej:
                raise ToolError(f"TLC failed on {judge} ({exp}):\n" + errors_of(out))
            bad = set()
            for (i, rid, why) in rej:
                i = int(i)
                if i in bad:
                    continue
                bad.add(i)
                self.reject(exp, lines[i - 1], rid, why)
            if self.violations:
                self.traces += len(lines)
                self.states += dist
                self.transitions += gen
                break
            lines = [l for k, l in enumerate(lines) if k + 1 not in bad]
            if not lines:
                break
        else:
            raise ToolError(f"{exp}: too many records are rejected as known findings")

    def examples(self, step):
        """The example programs, built from /repo, on random instances."""
        bins = {}
        for checks in ("false", "true"):   # as users build them (release: arithmetic wraps), and with overflow checks
            target = os.path.join(HARNESS, "target-examples" + ("-checked" if checks == "true" else ""))
            r = subprocess.run(["cargo", "build", "--examples", "--locked", "--offline", "--manifest-path", os.path.join(REPO, "Cargo.toml")],
                               cwd=REPO, env=dict(cargo_env(target), CARGO_PROFILE_DEV_OVERFLOW_CHECKS=checks), capture_output=True, text=True)
            if r.returncode != 0:
                raise ToolError("the examples do not compile:\n" + r.stderr[-3000:])
            bins[checks] = os.path.join(target, "debug", "examples")
        recs, stats = examples.collect(bins["false"], self.seed, step["secs"], step["quota"], self.work)
        recs = examples.listed(bins["false"], bins["true"], os.path.join(HERE, "findings", "C23.jsonl"), self.work) + recs
        path = os.path.join(self.work, "examples.all")
        with open(path, "w") as w:
            for x in recs:
                w.write(json.dumps(x) + "\n")
        self.parts.append({"what": "runs of the example programs", "counts": stats, "judged_by": "Judge"})
        self.judge(path, "Judge", "examples", len(recs))

    def reject(self, exp, line, rid, why):
        for k in self.known:
            if k["key"] in line or k["key"] in why:
                if k["what"] not in self.told:
                    say(f"KNOWN-FINDING: property={self.prop} {k['what']}")
                self.told.add(k["what"])
                return
        d = os.path.join(EVID, "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f"{self.prop}-{rid}.json")
        with open(path, "w") as f:
            try:
                rec = json.loads(line)
            except ValueError:
                rec = line
            json.dump({"property": self.prop, "why": why, "experiment": exp, "seed": self.seed,
                       "rerun": f"vh run --exp {exp} --seed {self.seed} (record {rid} = experiment-shard-index)", "record": rec}, f)
        self.violations.append((path, why))

    # ------------------------------------------------------------------------
    def run(self):
        steps = plan.steps(self.prop, self.tier)
        vh = None
        if any(s["kind"] != "examples" for s in steps):
            vh, variant = build()
            self.parts.append({"what": "harness", "variant": variant})
        for step in steps:
            kind = step["kind"]
            if kind == "design":
                if not self.violations:
                    self.design(step)
            elif kind == "examples":
                self.examples(step)
            elif kind == "solver_spec":
                if not self.violations:
                    replay.solver_spec(self, vh, step)
            elif kind == "heap_spec":
                if not self.violations:
                    replay.heap_spec(self, vh, step)
            elif kind == "util_spec":
                if not self.violations:
                    replay.util_spec(self, vh, step)
            elif kind == "exp":
                if not self.violations or self.tier == "thorough":
                    self.experiment(vh, step)
            else:
                getattr(plan, kind)(self, vh, step)
        self.finish()

    def finish(self):
        os.makedirs(EVID, exist_ok=True)
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
            "coverage": {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
                         "samples": self.samples[:4], "parts": self.parts},
            "assumptions": plan.ASSUMPTIONS.get(self.prop, []) + self.assumptions,
            "wall_s": round(time.time() - self.t0, 1), "violations": len(self.violations),
        }
        with open(os.path.join(EVID, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for path, why in self.violations[:3]:
            say(f"VIOLATION property={self.prop} replay={path}")
            say(f"  {why}")
        say(f"{self.prop} {self.tier}: {'VIOLATED' if self.violations else 'held'} "
            f"({self.traces} recorded executions, {self.states} states, {ev['wall_s']} s)")


def errors_of(out):
    """The part of TLC's output which says what went wrong."""
    k = out.find("Error:")
    return out[max(0, k):][:3000] if k >= 0 else out[-3000:]


def shorten(line):
    try:
        r = json.loads(line)
    except ValueError:
        return line[:400]
    s = json.dumps(r)
    return r if len(s) < 1800 else s[:1800] + "..."


def load_known(prop):
    out = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) key=\[([^\]]*)\] (.*)", line.strip())
            if m and m.group(1) == prop:
                out.append({"key": m.group(2), "what": m.group(3)})
    return out


def main():
    if len(sys.argv) < 2:
        say("usage: check.py <property> [quick|thorough]")
        return 2
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    c = Check(prop, tier)
    try:
        c.run()
        return 1 if c.violations else 0
    except (ToolError, subprocess.TimeoutExpired) as e:
        if c.violations:
            c.finish()
            return 1
        say(f"ERROR {prop}: {e}")
        return 2
    finally:
        shutil.rmtree(c.work, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
