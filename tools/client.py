"""Client histories: the specification explores every sequence of calls a client
can make with a few documents; a sample of them is made with the real library."""
import json, os, random, re
import mc, model, runner
from mc import M
from model import *


def Q(*items, a=b""):
    return ("Q", items, a)


def D(*pairs, a=b""):
    return ("M", pairs, a)


def A(name):
    return ("A", name)


def events(tree):
    """The events of a document with this tree; bytes are scalars."""
    out = []

    def put(t):
        if isinstance(t, bytes):
            out.append(["SC", t, b""])
        elif t[0] == "S":
            out.append(["SC", t[1], t[2]])
        elif t[0] == "A":
            out.append(["AL", b"", t[1]])
        elif t[0] == "Q":
            out.append(["QS", b"", t[2]])
            for x in t[1]:
                put(x)
            out.append(["QE", b"", b""])
        else:
            out.append(["MS", b"", t[2]])
            for k, v in t[1]:
                put(k)
                put(v)
            out.append(["ME", b"", b""])
    out += [["SS", b"", b""], ["DS", b"", b""]]
    put(tree)
    return out + [["DE", b"", b""], ["SE", b"", b""]]


class C(M):
    def finish(self, docs, calls, slots=3, length=(4, 5)):
        """docs: trees; calls: (type, document from 1, refused callback)."""
        self.evs = [events(t) for t in docs]
        self.calls, self.slots, self.length = calls, slots, length
        self.texts = [mc.render([tuple(e) for e in d]) for d in self.evs]
        return self

    def spec(self, deep):
        d = self.s.spec()
        d.update(docs=[[dict(k=k, v=list(v), a=list(a), l=1, c=1, f=float_env(v)) for k, v, a in e] for e in self.evs],
                 calls=[dict(ty=t, doc=n, rej=j) for t, n, j in self.calls], slots=self.slots, len=self.length[deep], logs=True)
        return d


CLIENTS = {}


def client(f):
    CLIENTS[f.__name__] = f
    return f


@client
def plain():
    """Sequences of strings, a deep default, callbacks; documents good, bad, refused and full of aliases."""
    m = C("client")
    st = m.ty("STRING", 1, dict(ptr=True), cb=True)
    dq = m.seq(m.ty("STRING", 1, dict(ptr=True)), dict(ptr=True, opt=True), mc=1)
    m.s[dq]["mb"] = m.g.make_static(dq)
    root = m.map([(b"s", m.seq(st, dict(ptr=True))), (b"d", dq), (b"n", m.ty("UINT", 2, dict(opt=True), miss=5))], dict(ptr=True), cb=True)
    return m.finish([D((b"s", Q(b"ab", b""))),
                     D((b"d", Q(("S", b"x", b"p"))), (b"s", Q(A(b"p"), A(b"p"))), (b"n", b"7")),
                     D((b"s", Q(b"q")), (b"n", b"70000")),
                     D((b"s", Q(b"q")), (b"d", D()))],
                    [(root, 1, 0), (root, 2, 0), (root, 3, 0), (root, 4, 0), (root, 1, 2), (root, 1, 3)])


@client
def trees():
    """A schema within itself."""
    m = C("trees")
    d = m.ty("MAPPING", 0, dict(ptr=True))
    ref = m.ref(d, opt=True)
    ch = m.seq(m.ref(d), dict(ptr=True, opt=True))
    m.g.set_fields(d, [m.ty("INT", 1), ref, ch], [b"v", b"n", b"c"])
    return m.finish([D((b"v", b"1"), (b"n", D((b"v", b"2"), a=b"t")), (b"c", Q(A(b"t"), D((b"v", b"-3"))))),
                     D((b"v", b"1"), (b"c", Q())),
                     D((b"v", b"1"), (b"n", D((b"c", Q()))))],
                    [(d, 1, 0), (d, 2, 0), (d, 3, 0)], length=(5, 6))


@client
def kinds():
    """Top-level values of several types, with sequences that are empty or null."""
    m = C("kinds")
    u = m.ty("UINT", 1, cb=True)
    q = m.seq(m.map([(b"k", m.ty("STRING", 4, {}, smax=3)), (b"e", m.ty("ENUM", 1, dict(opt=True), strs=[(b"on", 1), (b"off", 2)]))], {}), dict(ptr=True, nls=True), hi=2)
    f = m.seq(m.ty("FLAGS", 1, dict(ptr=True, nul=True), strs=[(b"a", 1), (b"b", 6)]), dict(ptr=True), fixed=2)
    s = m.ty("STRING", 1, dict(ptr=True, nul=True))
    n = m.seq(u, dict(ptr=True), cb=True)
    return m.finish([Q(D((b"k", b"on"), (b"e", b"on")), D((b"k", b""), (b"e", b"-4"))), b"null", Q(),
                     Q(Q(b"b", b"a"), b"~"), b"text", Q(b"1", b"2", b"3"), Q(D((b"e", b"on")))],
                    [(q, 1, 0), (q, 2, 0), (q, 3, 0), (f, 4, 0), (f, 6, 0), (s, 5, 0), (s, 2, 0), (n, 6, 0), (n, 6, 3), (n, 3, 0), (q, 7, 0)], slots=2, length=(4, 5))


# the clients whose histories bear on each property
BEAR = {"C02": ["plain", "trees"], "C16": ["trees", "kinds"], "C21": ["plain", "kinds"], "C22": ["kinds"], "C03": ["plain"], "C09": ["kinds"]}
RE_HIST = re.compile(r'^<<"HIST", (\d+), "(.*)">>$', re.M)


def explore(names, deep, work, timeout=700):
    ms = [CLIENTS[n]() for n in names]
    f = os.path.join(work, "clients.ndjson")
    with open(f, "w") as fh:
        for m in ms:
            fh.write(json.dumps(m.spec(deep), separators=(",", ":")) + "\n")
    rc, out = runner.tlc("CyamlClient.tla", "CyamlClient.cfg", env=dict(SCN=f), workers=runner.JOBS, heap="12g", timeout=timeout, work=work, extra=("-checkpoint", "0"))
    mt = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    if "Model checking completed. No error has been found." not in out:
        i = out.find("Error:")
        raise runner.Broken("the specification is at odds with itself (rc %d):\n%s" % (rc, "\n".join(l for l in out[i:i + 60000].splitlines() if "HIST" not in l)))
    hist = {}
    for i, j in RE_HIST.findall(out):
        hist.setdefault(int(i) - 1, set()).add(mc.unescape(j))
    return dict(clients=names, states=int(mt[-1][1]), transitions=int(mt[-1][0]), histories=sum(len(h) for h in hist.values())), \
        [(m, [json.loads(j) for j in sorted(hist.get(i, ()))]) for i, m in enumerate(ms)]


def scenarios(pid, found, cap, seed):
    """Some of the histories, several to a scenario, everything freed between."""
    out = []
    for m, hs in found:
        r = random.Random("%s/%s/%s" % (seed, pid, m.name))
        r.shuffle(hs)
        for k in range(0, min(cap, len(hs)), 8):
            s = Scenario.from_json(m.s.to_json())
            s.id = "%s-cl-%s-%d" % (pid, m.name, k // 8)
            docs = [s.doc(t) for t in m.texts]
            if pid == "C21":
                # each call alone first: where that goes wrong, this property has nothing to say
                for t, n, j in m.calls:
                    s.op("LOAD", t, 1, docs[n - 1], j, 0)
                    s.op("COPY", 1, 2)
                    s.op("SAVE", 2, 0, 0)
                    s.op("FREE", 1)
                    s.op("FREE", 2)
                for o in s.ops:
                    o["own"] = False
                s.split = len(s.ops)
            for h in hs[k:k + 8]:
                full = set()
                for o in h:
                    a = o["a"]
                    if o["k"] == "LOAD":
                        s.op("LOAD", a[0], a[1], docs[a[2]], a[3], int(r.random() < 0.2))
                        full.add(a[1])
                    elif o["k"] == "SAVE":
                        s.op("SAVE", a[0], 0, 0)
                        if pid == "C22":
                            s.op("SAVE", a[0], 1, r.randint(0, 1))
                    elif o["k"] == "COPY":
                        s.op("COPY", a[0], a[1])
                        if pid == "C03" and r.random() < 0.3:
                            s.op("OOMC", a[0], 0, r.randint(0, 1), 60, r.randint(1, 3))
                        full.add(a[1])
                    else:
                        s.op("FREE", a[0])
                        full.discard(a[0])
                for i in r.sample(sorted(full), len(full)):
                    s.op("FREE", i)
            out.append(s)
    return out


def run(pid, tier, work, seed="1"):
    names = BEAR.get(pid, [])
    if not names:
        return [], []
    deep = tier == "thorough"
    st, found = explore(names, deep, work)
    return [st], scenarios(pid, found, 6000 if deep else 240, seed)


if __name__ == "__main__":
    import sys, tempfile, shutil, time
    for n in sys.argv[2:] or sorted(CLIENTS):
        w = tempfile.mkdtemp()
        t = time.time()
        try:
            st, found = explore([n], sys.argv[1] == "thorough", w, 3000)
            print(st, "%.0f s" % (time.time() - t), CLIENTS[n]().texts, found[0][1][:2], flush=True)
        except runner.Broken as e:
            print(n, str(e)[:6000], flush=True)
        shutil.rmtree(w)
