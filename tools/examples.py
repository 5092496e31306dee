"""C23: random tiny instances of the three example problems, run through the real programs."""
import itertools, json, os, random, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

INF = 1 << 40


# -- instances -----------------------------------------------------------------
def closure(d):
    n = len(d)
    for k in range(n):
        for i in range(n):
            for j in range(n):
                d[i][j] = min(d[i][j], d[i][k] + d[k][j])
    return d


def tsptw(r):
    n = r.choice([2, 3, 4, 5, 5, 6, 6, 6, 7])
    hi = r.choice([3, 8, 20])
    d = closure([[0 if i == j else r.randint(r.choice([0, 1]), hi) if r.random() < .9 else 1 for j in range(n)] for i in range(n)])
    if r.random() < .4:
        for i in range(n):
            for j in range(i):
                d[i][j] = d[j][i] = min(d[i][j], d[j][i])
        closure(d)
    horizon = r.choice([hi * n, hi * n // 2 + 2, 3 * hi * n])
    tw = [[0, horizon + hi]]
    perm = list(range(1, n))
    r.shuffle(perm)
    t, p = 0, 0
    style = r.choice(["loose", "tour", "tour", "random"])
    for c in perm:
        t += d[p][c] + (r.randint(0, hi) if r.random() < .3 else 0)
        p = c
        tw.append([c, t])
    at = {c: t for c, t in tw[1:]}
    tw = tw[:1]
    for c in range(1, n):
        if style == "loose":
            a, b = r.randint(0, hi), horizon
        elif style == "tour":
            a, b = max(0, at[c] - r.randint(0, 2 * hi)), at[c] + r.randint(0, 3 * hi)
        else:
            a = r.randint(0, max(0, horizon - 1))
            b = a + r.randint(0, horizon)
        tw.append([a, b])
    tw[0] = [0, max(at.values(), default=0) + r.choice([hi, 2 * hi, 4 * hi, horizon])]
    return {"p": "tsptw", "n": n, "d": d, "tw": tw}


def srflp(r):
    n = r.choice([1, 2, 3, 4, 5, 5, 6, 6, 6])
    f = [[0] * n for _ in range(n)]
    hi = r.choice([2, 5, 20])
    dens = r.choice([.4, .8, 1])
    for i in range(n):
        for j in range(i):
            f[i][j] = f[j][i] = r.randint(0, hi) if r.random() < dens else 0
    return {"p": "srflp", "n": n, "l": [r.randint(1, r.choice([1, 4, 10])) for _ in range(n)], "f": f}


def psp(r):
    items = r.choice([1, 2, 3, 3, 4])
    t = r.choice([2, 4, 5, 6, 7, 8])
    hi = r.choice([2, 5, 30])
    c = closure([[0 if i == j else r.randint(0, hi) for j in range(items)] for i in range(items)])
    s = [r.randint(0, r.choice([1, 3, 10])) for _ in range(items)]
    left = r.randint(0, t) if r.random() < .7 else t
    dem = [[0] * t for _ in range(items)]
    for _ in range(left):
        dem[r.randrange(items)][r.randrange(t)] = 1
    for p in range(t):     # mostly feasible: not too many orders too early
        while sum(sum(x[:p + 1]) for x in dem) > p + 1 and r.random() < .95:
            cand = [(i, q) for i in range(items) for q in range(p + 1) if dem[i][q]]
            i, q = r.choice(cand)
            dem[i][q] = 0
    return {"p": "psp", "items": items, "t": t, "c": c, "s": s, "dem": dem}


def text(x):
    row = lambda v: " ".join(map(str, v))
    if x["p"] == "tsptw":
        return "\n".join([str(x["n"])] + [row(v) for v in x["d"]] + [row(v) for v in x["tw"]]) + "\n"
    if x["p"] == "srflp":
        return "\n".join([str(x["n"]), row(x["l"])] + [row(v) for v in x["f"]]) + "\n"
    return "\n".join([str(x["t"]), str(x["items"]), str(sum(map(sum, x["dem"]))), ""] + [row(v) + " " for v in x["c"]]
                     + ["", row(x["s"]) + " ", ""] + [row(v) + " " for v in x["dem"]]) + "\n"


# -- the harness's own opinion (only chooses what the specification judges first) --
def opinion(x):
    if x["p"] == "tsptw":
        best = None
        for perm in itertools.permutations(range(1, x["n"])):
            t, p = 0, 0
            for c in perm + (0,):
                t = max(t + x["d"][p][c], x["tw"][c][0])
                p = c
                if t > x["tw"][c][1]:
                    break
            else:
                best = t if best is None else min(best, t)
        return None if best is None else -best * 10000
    if x["p"] == "srflp":
        best = INF
        n = x["n"]
        for perm in itertools.permutations(range(n)):
            v = 0
            for a in range(n):
                s = 0
                for b in range(a + 1, n):
                    v += x["f"][perm[a]][perm[b]] * s
                    s += x["l"][perm[b]]
            best = min(best, v)
        return -best
    dl = [[p for p in range(x["t"]) if row[p]] for row in x["dem"]]
    layer = {(-1, tuple(len(q) for q in dl)): 0}
    for t in reversed(range(x["t"])):
        new = {}
        for (k, left), v in layer.items():
            opts = [((k, left), v)]
            for i in range(x["items"]):
                if left[i] and dl[i][left[i] - 1] >= t:
                    l2 = left[:i] + (left[i] - 1,) + left[i + 1:]
                    opts.append(((i, l2), v + (x["c"][i][k] if k >= 0 else 0) + x["s"][i] * (dl[i][left[i] - 1] - t)))
            for key, w in opts:
                if key not in new or new[key] > w:
                    new[key] = w
        layer = new
    done = [v for (k, left), v in layer.items() if not any(left)]
    return -min(done) if done else None


# -- running the programs -------------------------------------------------------
def run(bins, x, cfg, path, limit=100):
    with open(path, "w") as f:
        f.write(text(x))
    cmd = [os.path.join(bins, x["p"]), "solve", "-f", path, "-s", cfg["solver"], "-c", cfg["cutset"], "-t", "60"]
    if cfg["threads"]:
        cmd += ["-T", str(cfg["threads"])]
    if cfg["width"]:
        cmd += ["-w", str(cfg["width"])]
    o = {"fatal": "", "status": "", "name": "", "solver": "", "some": False, "value": 0, "lb": 0, "ub": 0, "gap": -1, "lines": 0}
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=limit)
    except subprocess.TimeoutExpired:
        o["fatal"] = f"no answer within {limit} s"
        return o
    if r.returncode != 0:
        o["fatal"] = f"exit code {r.returncode}: " + " ".join(r.stderr.split())[:300]
        return o
    rows = [l for l in r.stdout.splitlines() if "|" in l]
    o["lines"] = len(rows)
    if len(rows) != 1:
        return o
    c = [v.strip() for v in rows[0].split("|")]
    num = lambda s: max(-INF, min(INF, int(s)))
    try:
        o.update(name=c[0], solver=c[1], status=c[2], some=c[5] != "not found", value=0 if c[5] == "not found" else num(c[5]),
                 lb=num(c[6]), ub=num(c[7]), gap=round(float(c[8]) * 10000))
    except (ValueError, IndexError):
        o["fatal"] = "unreadable: " + rows[0][:200]
    return o


def suspicious(o, opt):
    if o["fatal"] or o["lines"] != 1 or o["status"] != "Proved":
        return True
    if o["some"] != (opt is not None) or (o["some"] and o["value"] != opt):
        return True
    return o["lb"] != o["ub"] or o["gap"] != 0


MERGELESS = 1000


def known(x, cfg, o, opt):
    """Looks like the recorded defect of tsptw (its records go to the judge too, which decides, but not all of them)."""
    return (x["p"] == "tsptw" and cfg["width"] != MERGELESS and not o["fatal"] and o["lines"] == 1 and o["status"] == "Proved"
            and opt is not None and o["lb"] == o["ub"] and (not o["some"] or o["value"] < opt))


def listed(bins, checked, path, work):
    out = []
    for line in open(path):
        k = json.loads(line)
        out.append({"id": "known-" + k["id"], "x": k["x"], "cfg": k["cfg"], "o": run(checked if k["checked"] else bins, k["x"], k["cfg"], os.path.join(work, "listed"))})
    return out


def case(seed, shard, idx):
    r = random.Random(f"{seed}/{shard}/{idx}")
    x = r.choice([tsptw, tsptw, srflp, psp])(r)
    cfg = {"solver": r.choice(["parallel", "barrier"]), "cutset": r.choice(["lel", "frontier"]),
           "threads": r.choice([0, 1, 1, 1, 2, 3]), "width": r.choice([0, 1, 1, 2])}
    if x["p"] == "tsptw" and r.random() < .3:
        cfg["width"] = MERGELESS
    return x, cfg


def shard(bins, seed, s, until, quota, work):
    recs, bad, stats = [], [], {"runs": 0, "feasible": 0}
    idx = 0
    while time.time() < until and len(bad) < 4:
        x, cfg = case(seed, s, idx)
        opt = opinion(x)
        o = run(bins, x, cfg, os.path.join(work, f"inst{s}"))
        stats["runs"] += 1
        stats[x["p"]] = stats.get(x["p"], 0) + 1
        stats["feasible"] += opt is not None
        rec = {"id": f"ex-{s}-{idx}", "x": x, "cfg": cfg, "o": o}
        if known(x, cfg, o, opt):
            stats["as_the_known_finding"] = stats.get("as_the_known_finding", 0) + 1
            if stats["as_the_known_finding"] == 1 and s == 0:
                recs.append(rec)
        elif suspicious(o, opt):
            bad.append(rec)
        elif len(recs) < quota:
            recs.append(rec)
        idx += 1
    return recs, bad, stats


def collect(bins, seed, secs, quota, work, shards=8):
    until = time.time() + secs
    with ThreadPoolExecutor(shards) as ex:
        out = list(ex.map(lambda s: shard(bins, seed, s, until, quota, work), range(shards)))
    stats = {}
    for _, bad, st in out:
        for k, v in st.items():
            stats[k] = stats.get(k, 0) + v
        stats["suspicious"] = stats.get("suspicious", 0) + len(bad)
    return [x for _, b, _ in out for x in b] + [x for r, _, _ in out for x in r], stats


if __name__ == "__main__":
    recs, stats = collect(sys.argv[1], int(sys.argv[2]), float(sys.argv[3]), 1, sys.argv[4])
    print(stats)
    for x in recs:
        opt = opinion(x["x"])
        if suspicious(x["o"], opt):
            print(opt, json.dumps(x))
