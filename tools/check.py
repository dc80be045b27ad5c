#!/usr/bin/env python3
"""check.py PROPERTY quick|thorough      decide a property on /repo's working tree
check.py replay FILE                  run a saved scenario again
"""
import hashlib, json, os, random, shutil, sys, tempfile, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from concurrent.futures import ProcessPoolExecutor
import model, profiles, runner, show

VERIF = runner.VERIF
OUT = os.path.join(VERIF, "out")


def make(args):
    pid, seed, i, tier = args
    r = random.Random("%s/%s/%d" % (pid, seed, i))
    return tidy(profiles.ALL[pid].make(r, "%s-%s-%d" % (pid, seed, i), tier))


def tidy(s):
    """Free what a slot may hold before it is used again."""
    full, ops = set(), []
    split = s.split
    for i, o in enumerate(s.ops):
        k, a = o["k"], o["a"]
        to = a[1] if k in ("LOAD", "RELOAD", "COPY", "BUILD") else None
        if to is not None:
            if to in full:
                ops.append(dict(k="FREE", a=[to], blocks=[], own=o.get("own", True)))
                split += i < s.split
            full.add(to)
        elif k == "FREE":
            full.discard(a[0])
        ops.append(o)
    s.ops, s.split = ops, split
    return s


def scenarios(pid, seed, tier, lo, hi, pool):
    return list(pool.map(make, [(pid, seed, i, tier) for i in range(lo, hi)], chunksize=16))


def in_domain(t):
    """Floating point text on which the C library's own conversions may differ is not judged."""
    return True


class Failure:
    def __init__(self, scn, classes, op, detail, trace=None):
        self.scn, self.classes, self.op, self.detail, self.trace = scn, classes, op, detail, trace


def judge(p, exe, work, scns, stats):
    """Failures of property p among the scenarios."""
    fails = []
    exe = runner.with_macros(exe, work, scns)
    res = runner.run_harness(exe, work, scns, p.limit)
    by = {s.id: s for s in scns}
    traces, owner = [], {}
    for s in scns:
        x = res.get(s.id)
        if x is None:
            raise runner.Broken("no result for " + s.id)
        if isinstance(x, dict):
            # again, alone and with more time
            again = runner.run_chunk(exe, work, "again", [s], p.limit * 6)[s.id]
            if isinstance(again, dict):
                fails.append(Failure(s, {"crash"}, 0, again["err"]))
                continue
            x = again
        for j in x:
            t = runner.trace(s, j)
            owner[t["id"]] = s
            traces.append(t)
            stats["calls"] += len(t["ops"])
            for o in t["ops"]:
                stats["results"][o["o"]["e"]] = stats["results"].get(o["o"]["e"], 0) + 1
                if "n" in o["o"] and o["k"][:3] == "OOM":
                    stats["refusals"] += len(o["o"]["n"])
    bad, st = runner.validate(work, traces)
    for k in st:
        stats[k] += st[k]
    stats["traces"] += len(traces)
    tr = {t["id"]: t for t in traces}
    for tid, op, classes, detail in bad:
        s = owner[tid]
        if "model" in classes:
            stats["out_of_domain"] += 1
            continue
        n = tr[tid]["ops"][op - 1]
        mine = classes & p.mask
        if not n.get("own", True) or not mine:
            stats["foreign"].append("%s op %d %s" % (tid, op, sorted(classes)))
            continue
        fails.append(Failure(s, classes, op, "call %d (%s): %s; specification says %s" % (op, n["k"], ",".join(sorted(classes)), detail), tr[tid]))
    return fails


def shrink(p, exe, work, f):
    """Drop calls that the failure does not need."""
    best = f
    s0 = f.scn
    if s0.threads:
        return f
    j = s0.to_json()
    t0 = time.time()
    i = len(j["ops"]) - 1
    while i >= 0 and time.time() - t0 < 25:
        cand = json.loads(json.dumps(j))
        del cand["ops"][i]
        if cand["split"] > i:
            cand["split"] -= 1
        st = new_stats()
        try:
            fs = judge(p, exe, work, [model.Scenario.from_json(cand)], st)
        except Exception:
            fs = []
        if fs and (fs[0].classes & f.classes or "crash" in f.classes):
            j, best = cand, fs[0]
        i -= 1
    return best


def new_stats():
    return dict(states=0, transitions=0, traces=0, calls=0, refusals=0, out_of_domain=0, foreign=[], results={})


def replay_file(pid, f):
    os.makedirs(OUT, exist_ok=True)
    j = dict(property=pid, classes=sorted(f.classes), op=f.op, detail=f.detail, scenario=f.scn.to_json(), trace=f.trace)
    h = hashlib.sha1(json.dumps(j["scenario"], sort_keys=True).encode()).hexdigest()[:10]
    path = os.path.join(OUT, "%s-%s.json" % (pid, h))
    with open(path, "w") as fh:
        json.dump(j, fh)
    return path


def known(pid):
    out = []
    path = os.path.join(VERIF, "KNOWN_FINDINGS")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("known: property=%s " % pid):
                out.append(line[len("known: "):].strip())
    return out


def check(pid, tier):
    t0 = time.time()
    seed = os.environ.get("VERIF_SEED", "1")
    p = profiles.ALL[pid]
    work = tempfile.mkdtemp(prefix="cyaml-")
    stats = new_stats()
    fails = []
    mc = []
    try:
        exe = runner.build(work)
        budget = float(os.environ.get("CYAML_BUDGET", "60" if tier == "quick" else "780"))
        total = p.quick if tier == "quick" else p.thorough
        batch = min(total, 1600)
        done = 0
        with ProcessPoolExecutor(runner.JOBS) as pool:
            import mc as mcmod
            mc, mcscn, mcfail = mcmod.run(pid, tier, work)
            fails += mcfail
            if mcscn:
                fails += judge(p, exe, work, mcscn, stats)
            while done < total and not fails:
                n = min(batch, total - done)
                fails += judge(p, exe, work, scenarios(pid, seed, tier, done, done + n, pool), stats)
                done += n
                if time.time() - t0 > budget:
                    break
            if p.threads and not fails:
                texe = runner.build(work, "thread")
                scns = [s for s in scenarios(pid, seed, tier, 0, total if tier == "quick" else min(total, 2000), pool) if s.threads]
                stats["race_checked"] = len(scns)
                res = runner.run_harness(texe, work, scns, p.limit * 2)
                for s in scns:
                    x = res.get(s.id)
                    if isinstance(x, dict) and ("ThreadSanitizer" in x["err"] or isinstance(runner.run_chunk(texe, work, "again", [s], p.limit * 6)[s.id], dict)):
                        fails.append(Failure(s, {"crash"}, 0, x["err"]))
        rc = 0
        if fails:
            f = min(fails, key=lambda f: (f.scn is None, "crash" in f.classes, len(f.scn.tokens()) if f.scn else 0))
            if f.scn is not None:
                g = shrink(p, exe, work, f) if f.op or "crash" in f.classes else f
                path = replay_file(pid, g)
                print("%d of %d histories do not conform; the smallest: %s" % (len(fails), stats["traces"], g.detail[:3000]))
                show.show(g.scn, out=lambda *a: print(*[str(x)[:600] for x in a]))
            else:
                path = f.trace
                print(f.detail[:6000])
            print("VIOLATION property=%s replay=%s" % (pid, path))
            rc = 1
        else:
            for k in known(pid):
                print("KNOWN-FINDING: " + k)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    if len(stats["foreign"]) and rc == 0:
        print("note: %d histories differ from the specification in ways that do not concern %s, e.g. %s" % (len(stats["foreign"]), pid, stats["foreign"][:3]))
    wall = time.time() - t0
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    samples = []
    cov = dict(states=stats["states"] + sum(m["states"] for m in mc), transitions=stats["transitions"] + sum(m["transitions"] for m in mc),
               traces_validated_against_impl=stats["traces"], calls_judged=stats["calls"], refused_allocations=stats["refusals"],
               outcomes=stats["results"], random_scenarios=done, out_of_model=stats["out_of_domain"],
               differences_of_other_properties=len(stats["foreign"]), model_checking=mc,
               race_checked_scenarios=stats.get("race_checked", 0),
               samples=[make((pid, seed, i, tier)).to_json()["text"][:2] for i in range(2)])
    ev = dict(property=pid, tier=tier, seed=int(seed) if seed.isdigit() else 0, level="model_checking", coverage=cov, wall_s=round(wall, 1),
              violations=len(fails))
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    print("%s %s: %d histories of the library (%d calls, %d refused allocations) validated by TLC in %.0f s: %s"
          % (pid, tier, stats["traces"], stats["calls"], stats["refusals"], wall, "violated" if rc else "held"))
    return rc


def replay(path):
    j = json.load(open(path))
    p = profiles.ALL[j["property"]]
    work = tempfile.mkdtemp(prefix="cyaml-")
    try:
        exe = runner.build(work)
        s = model.Scenario.from_json(j["scenario"])
        show.show(s)
        fs = judge(p, exe, work, [s], new_stats())
        if not fs and p.threads and s.threads:
            texe = runner.build(work, "thread")
            x = runner.run_harness(texe, work, [s], p.limit * 2)[s.id]
            if isinstance(x, dict):
                fs = [Failure(s, {"crash"}, 0, x["err"])]
        for f in fs:
            print(f.detail[:5000])
            print("VIOLATION property=%s replay=%s" % (p.id, path))
        return 1 if fs else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    try:
        if sys.argv[1] == "replay":
            sys.exit(replay(sys.argv[2]))
        sys.exit(check(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")))
    except runner.Broken as e:
        print("BROKEN: " + str(e)[-4000:])
        sys.exit(3)
    except Exception:
        import traceback
        print("BROKEN: " + traceback.format_exc()[-3000:])
        sys.exit(3)
