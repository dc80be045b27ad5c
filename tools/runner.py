"""Builds the harness from /repo's working tree, runs scenarios on it, and has
TLC validate what was recorded."""
import json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
import macros, model

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("CYAML_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
JOBS = int(os.environ.get("CYAML_JOBS", "8"))


# the library's calls of libyaml that may be made to fail
WRAP = ["-Wl,--wrap=yaml_" + f for f in ["parser_initialize", "parser_parse", "emitter_initialize", "emitter_emit", "emitter_flush"] + [
    e + "_event_initialize" for e in ("stream_start", "stream_end", "document_start", "document_end", "scalar",
                                      "sequence_start", "sequence_end", "mapping_start", "mapping_end")]]


class Broken(Exception):
    """The machinery itself failed: no verdict."""


def build(work, sanitize="address,undefined", extra=()):
    out = os.path.join(work, "harness-" + sanitize.replace(",", "-"))
    os.makedirs(out, exist_ok=True)
    src = os.path.join(REPO, "src")
    units = [os.path.join(VERIF, "harness", "harness.c")] + sorted(
        os.path.join(src, f) for f in os.listdir(src) if f.endswith(".c"))
    base = ["clang", "-std=gnu11", "-g1", "-O1", "-fno-omit-frame-pointer", "-w", "-I" + os.path.join(REPO, "include"), "-I" + src,
            "-DVERSION_MAJOR=2", "-DVERSION_MINOR=0", "-DVERSION_PATCH=0", "-DVERSION_DEVEL=1", *extra]
    san = ["-fsanitize=" + sanitize, "-fno-sanitize-recover=all"] if sanitize else []
    if sanitize == "thread":
        base.append("-DNOHOOKS")

    def cc(u):
        o = os.path.join(out, os.path.basename(u) + ".o")
        return o, subprocess.run(base + san + ["-c", u, "-o", o], capture_output=True, text=True)
    with ThreadPoolExecutor(JOBS) as ex:
        res = list(ex.map(cc, units))
    for o, r in res:
        if r.returncode:
            raise Broken("the library does not compile:\n" + r.stderr[-3000:])
    exe = os.path.join(out, "harness")
    r = subprocess.run(["clang", *san, *[o for o, _ in res], "-lyaml", "-lpthread", *WRAP, "-o", exe],
                       capture_output=True, text=True)
    if r.returncode:
        raise Broken("link:\n" + r.stderr[-3000:])
    return exe


def with_macros(exe, work, scns, sanitize="address,undefined"):
    """The harness, with the schemas of these scenarios as C source."""
    scns = [s for s in scns if s.macros]
    if not scns:
        return exe
    out = os.path.dirname(exe)
    objs = [os.path.join(out, f) for f in os.listdir(out) if f.endswith(".c.o")]
    n = min(JOBS, len(scns))
    here = tempfile.mkdtemp(dir=work)
    files = []
    for i in range(n):
        files.append(os.path.join(here, "schemas%d.c" % i))
        with open(files[-1], "w") as f:
            f.write(macros.unit(scns[i::n], "schemas%d" % i))
    files.append(os.path.join(here, "index.c"))
    with open(files[-1], "w") as f:
        f.write(macros.index(["schemas%d" % i for i in range(n)]))

    def cc(u):
        return subprocess.run(["clang", "-std=gnu11", "-O0", "-w", "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(VERIF, "harness"),
                               "-c", u, "-o", u + ".o"], capture_output=True, text=True)
    with ThreadPoolExecutor(JOBS) as ex:
        for u, r in zip(files, ex.map(cc, files)):
            if r.returncode:
                raise Broken("schemas do not compile:\n" + r.stderr[-3000:])
    new = os.path.join(here, "harness")
    r = subprocess.run(["clang", "-fsanitize=" + sanitize, "-fno-sanitize-recover=all", *objs, *[u + ".o" for u in files], "-lyaml", "-lpthread", *WRAP, "-o", new],
                       capture_output=True, text=True)
    if r.returncode:
        raise Broken("link:\n" + r.stderr[-3000:])
    return new


ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:exitcode=77:handle_abort=1",
           UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=77",
           TSAN_OPTIONS="halt_on_error=1:exitcode=77:report_signal_unsafe=0", LC_ALL="C")


def run_chunk(exe, work, name, scns, limit, attempt=0):
    """Results by scenario id: list of observations (one per thread), or a crash."""
    res, rest = {}, list(scns)
    while rest:
        fin = os.path.join(work, name + ".scn")
        with open(fin, "w") as f:
            for s in rest:
                f.write(s.tokens())
        tmp = tempfile.mkdtemp(dir=work)
        try:
            p = subprocess.run([exe, fin, tmp, str(limit)], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               env=ENV, timeout=limit * len(rest) + 60)
            rc, out, err = p.returncode, p.stdout, p.stderr.decode("utf8", "replace")
        except subprocess.TimeoutExpired as e:
            rc, out, err = -14, e.stdout or b"", (e.stderr or b"").decode("utf8", "replace")
        shutil.rmtree(tmp, ignore_errors=True)
        for line in out.split(b"\n"):
            if line.startswith(b"{"):
                try:
                    j = json.loads(line)
                except ValueError:
                    continue
                res.setdefault(j["id"], []).append(j)
        if rc == 0:
            break
        began = re.findall(r"^BEGIN (\S+)", err, re.M)
        ended = re.findall(r"^END (\S+)", err, re.M)
        if not began:
            raise Broken("harness: rc %d: %s" % (rc, err[-2000:]))
        bad = began[-1]
        if bad in ended:
            raise Broken("harness ended badly between scenarios: rc %d: %s" % (rc, err[-2000:]))
        tail = err[err.rfind("BEGIN " + bad):]
        if "HARNESS: op" in tail or "HARNESS: arena" in tail or "HARNESS: expected" in tail:
            raise Broken(tail[-2000:])
        res[bad] = dict(crash=True, rc=rc, err=tail[:6000])
        idx = [s.id for s in rest].index(bad)
        rest = rest[idx + 1:]
    return res


def run_harness(exe, work, scns, limit=20, jobs=None):
    jobs = jobs or JOBS
    n = max(1, min(len(scns), jobs))
    chunks = [scns[i::n] for i in range(n)]
    res = {}
    with ThreadPoolExecutor(n) as ex:
        for r in ex.map(lambda a: run_chunk(exe, work, "c%d" % a[0], a[1], limit), enumerate(chunks)):
            res.update(r)
    return res


# ----------------------------------------------------------------------
def hexlist(h):
    return list(bytes.fromhex(h))


def event(e, floats):
    if e[0] == "ERR":
        return dict(k="ERR", v=[], a=[], l=1, c=1)
    d = dict(k=e[0], v=hexlist(e[1]), a=hexlist(e[2]), l=e[3], c=e[4])
    if floats and e[0] == "SC":
        d["f"] = model.float_env(bytes.fromhex(e[1]))
    return d


def emitted(e, floats):
    d = event(e, floats)
    if e[0] == "ERR":
        return dict(d, st="", im=True, tg=False)
    d["st"] = e[5]
    d["im"] = bool(e[6])
    d["tg"] = bool(e[7])
    return d


RE_BT = [
    (re.compile(rb"^  in mapping field '(.*)' \(line: (\d+), column: (\d+)\)$", re.S), "field", 1, None, 2, 3),
    (re.compile(rb"^  in mapping field: (.*)$", re.S), "field", 1, None, None, None),
    (re.compile(rb"^  in mapping \(line: (\d+), column: (\d+)\)$"), "map", None, None, 1, 2),
    (re.compile(rb"^  in mapping$"), "map", None, None, None, None),
    (re.compile(rb"^  in sequence entry '(\d+)' \(line: (\d+), column: (\d+)\)$"), "entry", None, 1, 2, 3),
    (re.compile(rb"^  in sequence entry: (\d+)$"), "entry", None, 1, None, None)]


def backtrace(lines):
    out = []
    for h in lines:
        b = bytes.fromhex(h)
        for r, k, n, i, l, c in RE_BT:
            mt = r.match(b)
            if mt:
                g = lambda x: min(int(mt.group(x)), 2147483647) if x else 0
                out.append(dict(k=k, n=list(mt.group(n)) if n else [], i=g(i), l=g(l), c=g(c)))
                break
        else:
            out.append(dict(k="?", n=list(b), i=0, l=0, c=0))
    return out


BIG = 2147483647


def trace(s, j):
    """The TLC record of one recorded history of scenario s."""
    floats = any(t["t"] == "FLOAT" for t in s.types)
    t = s.spec()
    t["id"] = "%s#%d" % (s.id, j["th"])
    t["logs"] = bool(s.haslog and s.level <= 4)
    t["warns"] = bool(s.haslog and s.level <= 3)
    docs = [[event(e, floats) for e in d] for d in j["docs"]]
    t["docs"] = docs
    heaps, renum = [], []
    for h in j["heaps"]:
        m = {b["id"]: i + 1 for i, b in enumerate(h)}
        renum.append(m)
        heaps.append([dict(b=hexlist(b["b"]), p=[[o, m[i]] for o, i in b["p"]]) for b in h])
    t["heaps"] = heaps
    slots = {}
    saved = None
    whose = None      # the slot the text last saved is of, while it holds that value
    outcome = {}      # of the latest ordinary call of each kind, for the refused ones
    ops = []
    for op, o in zip(s.ops, j["ops"]):
        if o.get("skip"):
            continue
        k, a = op["k"], op["a"]
        r = dict(k=k)
        m = renum[o["h"] - 1] if o["h"] else {}
        ok = o["e"] == "OK"
        cut = lambda v: min(int(v), BIG)
        ob = dict(e=o["e"], leak=cut(o["leak"]), mem=o["mem"], nlog=cut(o["nlog"]), badlog=bool(o["badlog"]),
                  errs=[hexlist(w) for w in o["errs"]], warn=[hexlist(w) for w in o["warn"]],
                  ro=bool(o["ro"]), h=o["h"], bt=backtrace(o["bt"]),
                  cb=[dict(ty=c["ty"], v=hexlist(c["v"]), k=cut(c["k"])) for c in o["cb"]])
        if k in ("LOAD", "RELOAD"):
            if k == "LOAD":
                r.update(ty=a[0], slot=a[1], doc=a[2] + 1, rej=a[3], iso=0)
            else:
                docs.append(saved)
                r.update(ty=a[0], slot=a[1], doc=len(docs), rej=a[2], iso=op.get("iso", 0) if whose == op.get("iso") else 0)
            if whose == a[1]:
                whose = None
            ob.update(out=o["o"], c=cut(o["c"]), inn=bool(o["in"]))
            if k == "LOAD" and a[3] == 0:
                outcome["L", a[0], a[2]] = o["e"]
            if ok:
                slots[a[1]] = o["r"]
                outcome.pop(("C", a[1]), None), outcome.pop(("S", a[1]), None)
        elif k == "FREE":
            r.update(slot=a[0])
            slots.pop(a[0], None)
            if whose == a[0]:
                whose = None
        elif k == "COPY":
            r.update(slot=a[0], to=a[1])
            ob.update(out=o["o"])
            outcome["C", a[0]] = o["e"]
            if ok:
                slots[a[1]] = o["r"]
        elif k == "SAVE" and a[1] == 0:
            r.update(slot=a[0], same=op.get("same", 0))
            outcome["S", a[0]] = o["e"]
            ob.update(out=o["o"], own=bool(o.get("own", 0)), prev=o.get("prev", 2), em=[])
            if "em" in o:
                ob["em"] = [emitted(e, floats) for e in o["em"]]
                saved = [event(e, floats) for e in o["em"]]
                whose = a[0]
        elif k == "SAVE":
            r.update(k="SAVEF", slot=a[0], kind=a[1])
            ob.update(me=o["me"], mlen=o["mlen"], flen=o["flen"], at=o["at"], fsame=bool(o["fsame"]))
        elif k == "BUILD":
            if whose == a[1]:
                whose = None
            r.update(ty=a[0], slot=a[1], cnt=a[2],
                     blocks=[dict(b=s.masked(b, p), p=[list(x) for x in p]) for b, p in op["blocks"]])
            slots[a[1]] = o["r"]
        elif k in ("OOML", "OOMC", "OOMS"):
            ob["n"] = [dict(f=bool(x["f"]), e=x["e"], want=x["want"], same=bool(x["same"]), heap=bool(x["heap"]), leak=cut(x["leak"]), mem=x["mem"])
                       for x in o["n"]]
            key = ("L", a[0], a[1]) if k == "OOML" else ("C", a[0]) if k == "OOMC" else ("S", a[0])
            r.update(want=outcome.get(key, ""))
        elif k == "PARAM":
            r.update(api=a[0], bits=a[1], ty=a[2])
            ob.update(out=o["o"], heapsame=bool(o["heapsame"]), calls=cut(o["calls"]), ncb=cut(o["ncb"]))
        elif k == "BADPATH":
            r.update(ty=a[0], kind=a[1])
            ob.update(out=o["o"])
        ob["sl"] = [0 if i not in slots else (0 if slots[i] == 0 else m.get(slots[i], -1)) for i in range(1, 17)]
        r["o"] = ob
        r["n"] = len(ops)
        r["own"] = bool(op.get("own", True))
        ops.append(r)
    t["ops"] = ops
    return t


# ----------------------------------------------------------------------
def tlc(module, cfg, env=None, workers=1, heap="3g", timeout=800, extra=(), work=None):
    meta = tempfile.mkdtemp(dir=work)
    cmd = ["java", "-Djava.io.tmpdir=" + meta, "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xss256m", "-Xmx" + heap, "-cp", JAR, "tlc2.TLC", "-workers", str(workers),
           "-metadir", meta, "-noGenerateSpecTE", "-config", cfg, *extra, module]
    try:
        p = subprocess.run(cmd, cwd=SPEC, capture_output=True, text=True, timeout=timeout, env=dict(os.environ, **(env or {})))
        out, rc = p.stdout + p.stderr, p.returncode
    except subprocess.TimeoutExpired as e:
        out, rc = ((e.stdout or b"").decode("utf8", "replace")), -1
    shutil.rmtree(meta, ignore_errors=True)
    return rc, "\n".join(l for l in out.splitlines() if not l.startswith(("Parsing ", "Semantic ", "Linting ")))


def cost(t):
    # the heap is copied and fingerprinted at every step
    ev = sum(len(d) for d in t["docs"]) + 4 * len(t["ops"])
    hp = max([sum(len(b["b"]) for b in h) for h in t["heaps"]] or [0])
    return ev * (hp + 200)


def validate(work, traces, jobs=None, timeout=800):
    """[(id, op, classes, detail)] of the mismatches; raises Broken without a verdict on each."""
    if not traces:
        return [], dict(states=0, transitions=0)
    jobs = jobs or JOBS
    n = max(1, min(jobs, (len(traces) + 7) // 8))
    bins = [[] for _ in range(n)]
    load = [0] * n
    for t in sorted(traces, key=cost, reverse=True):
        i = load.index(min(load))
        bins[i].append(t)
        load[i] += cost(t)
    stats = dict(states=0, transitions=0)

    def one(i):
        f = os.path.join(work, "trace%d.ndjson" % i)
        with open(f, "w") as fh:
            for t in bins[i]:
                fh.write(json.dumps(t, separators=(",", ":")) + "\n")
        rc, out = tlc("CyamlTrace.tla", "CyamlTrace.cfg", env=dict(TRACE=f), work=work, timeout=timeout, extra=("-checkpoint", "0"))
        return bins[i], rc, out
    bad = []
    with ThreadPoolExecutor(n) as ex:
        for part, rc, out in ex.map(one, range(n)):
            acc = set(re.findall(r'<<"ACCEPTED", "([^"]+)">>', out))
            mis = {}
            for mt in re.finditer(r'<<\s*"MISMATCH",\s*"([^"]+)",\s*(\d+),\s*\{([^}]*)\},\s*"(\w+)",\s*\{([^}]*)\}\s*>>', out):
                mis[mt.group(1)] = (mt.group(1), int(mt.group(2)), set(re.findall(r'"(\w+)"', mt.group(3))), mt.group(4) + " " + mt.group(5))
            mt = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
            if mt:
                stats["transitions"] += int(mt.group(1))
                stats["states"] += int(mt.group(2))
            lost = [t["id"] for t in part if t["id"] not in acc and t["id"] not in mis]
            if lost:
                raise Broken("TLC gave no verdict on %s (rc %d):\n%s" % (lost[:5], rc, out[-4000:]))
            bad += list(mis.values())
    return bad, stats
