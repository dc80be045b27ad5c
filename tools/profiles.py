"""For each property: the scenarios that exercise it, the kinds of difference
that break it, and what of the specification is model checked for it."""
import random
from model import *
from gen import *
import macros

ALWAYS = {"mem", "crash"}


class P:
    """One property's check."""
    def __init__(self, pid, mask, make, quick, thorough, mc=(), threads=False, limit=30):
        self.id, self.mask, self.make = pid, set(mask.split()) | ALWAYS, make
        self.quick, self.thorough = quick, thorough      # scenarios
        self.mc, self.threads, self.limit = mc, threads, limit


ALL = {}


def profile(pid, mask, quick, thorough, **kw):
    def deco(f):
        ALL[pid] = P(pid, mask, f, quick, thorough, **kw)
        return f
    return deco


def many(r, g, ty, n, tree=None):
    """n documents of type ty, as their numbers."""
    return [g.s.doc(g.document(ty)) for _ in range(n)]


def vary(r, p, **kw):
    """Some of the knobs turned, at random."""
    return {k: v for k, v in kw.items() if r.random() < p}


def fileflag(r):
    return int(r.random() < 0.12)


COMMON = dict(ptr=0.35)


def spice(r):
    """Every scenario differs from the plain generator in a few ways."""
    return vary(r, 0.25, alias=0.4, weird=1, recursive=0.4, depth=4, cb=0.4, iuk=0.7, ci=0.6, nls=0.5, opt=0.6, default=0.8,
                fields=(1, 12), gaps=0.8, style=0.4, unlimited=0.9, entries=(0, 12))


# ----------------------------------------------------------------------
def injected(r, g, root, ty):
    """root with one error somewhere (usually)."""
    n = root.copy()
    c = r.random()
    if c < 0.35:
        return g.mutate(n)
    nodes = [(x, p, i) for x, p, i in walk(n) if x.ty]
    if not nodes:
        return g.mutate(n)
    x, p, i = r.choice(nodes)
    old = g.p["bad"]
    g.p["bad"] = 1.0
    new = g.value(x.ty, 3)
    g.p["bad"] = old
    if p is None:
        return new
    replace(p, i, new)
    return n


@profile("C01", "out heaperr leak", 700, 12000)
def c01(r, sid, tier):
    g = Gen(r, **dict(dict(struct=0.05, bad=0.02, cb=0.4, alias=0.25, opt=0.4, default=0.5), **spice(r)))
    s = g.scenario(sid)
    ty = g.root()
    base = g.tree(ty)
    good = s.doc(g.writer.text(base))
    s.op("LOAD", ty, 1, good, 0, fileflag(r))
    for j in range(r.randint(3, 8)):
        t = g.writer.text(injected(r, g, base, ty))
        if r.random() < 0.2:
            t = t[:r.randint(0, len(t))]
        elif r.random() < 0.1:
            t = t + r.choice([b"}", b"]", b"- x: [", b"%bad", b"--- {", b"\x01", b"\"", b"...\nx: y", b"*nope", b"\t- a"])
        s.op("LOAD", ty, 2 + j % 4, s.doc(t), 0, fileflag(r))
        if r.random() < 0.5:
            s.op("FREE", 2 + j % 4)
    for k in range(1, r.randint(2, 5)):
        s.op("LOAD", ty, 7, good, k, 0)
        s.op("FREE", 7)
    if r.random() < 0.3:
        s.op("OOML", ty, good, r.randint(0, 1), 60, r.randint(1, 7), 0)
    for j in range(1, 6):
        s.op("FREE", j)
    return s


@profile("C02", "heap heaperr leak", 700, 12000)
def c02(r, sid, tier):
    g = Gen(r, **dict(dict(bad=0.02, alias=0.2, opt=0.5, default=0.7, cb=0.1, iuk=0.4, ignore=0.6,
                           kinds=dict(SEQUENCE=4, SEQUENCE_FIXED=3, MAPPING=3, STRING=4)), **spice(r)))
    s = g.scenario(sid)
    ty = g.root()
    docs = many(r, g, ty, 3)
    live = set()
    for _ in range(r.randint(6, 18)):
        c = r.random()
        free = [i for i in range(1, 9) if i not in live]
        if c < 0.4 and free:
            i = r.choice(free)
            s.op("LOAD", ty, i, r.choice(docs), 0, fileflag(r))
            live.add(i)
        elif c < 0.6 and live and free:
            i = r.choice(free)
            s.op("COPY", r.choice(sorted(live)), i)
            live.add(i)
        elif c < 0.65 and live:
            s.op("SAVE", r.choice(sorted(live)), 0, 0)
        elif c < 0.7 and free:
            b, n = g.blocks(ty)
            i = r.choice(free)
            s.op("BUILD", ty, i, n, blocks=b)
            live.add(i)
        elif live:
            i = r.choice(sorted(live))
            s.op("FREE", i)
            live.discard(i)
    for i in r.sample(sorted(live), len(live)):
        s.op("FREE", i)
    return s


def chain(r, g):
    """A schema that nests in itself, and a document of it of a given depth: type, text(depth)."""
    s = g.s
    f = r.choice(["map", "seq", "fixed"])
    i = s.ty(mktype("INT", 2))
    m = s.ty(mktype("MAPPING", 0, dict(ptr=True)))
    ref = s.ty(dict(mktype("MAPPING", 0, dict(ptr=True, opt=True)), fields=None, alias_of=m))
    if f == "map":
        g.set_fields(m, [i, ref], [b"v", b"n"])
        return m, lambda d, end=b"{v: 2}": b"{v: 1, n: " * d + end + b"}" * d
    if f == "seq":
        q = s.ty(mktype("SEQUENCE", 8, dict(ptr=True, opt=True), ent=ref, smin=0))
        g.set_fields(m, [i, q], [b"v", b"n"])
        return m, lambda d, end=b"{v: 2}": b"{v: 1, n: [{v: 3}, " * d + end + b"]}" * d
    e = s.ty(dict(mktype("MAPPING", 0, dict(ptr=True)), fields=None, alias_of=m))
    q = s.ty(mktype("SEQUENCE_FIXED", 8, dict(ptr=True, opt=True), ent=e, smin=1, smax=1))
    g.set_fields(m, [i, q], [b"v", b"n"])
    return m, lambda d, end=b"{v: 2}": b"{v: 1, n: [" * d + end + b"]}" * d


@profile("C03", "oom oomheap leak heap heaperr out err", 500, 8000)
def c03(r, sid, tier):
    c = r.random()
    if c < 0.16:
        # deep data, or long text, and every allocation refused in turn
        g = Gen(r, **vary(r, 0.2, ci=0.6, iuk=0.6))
        s = g.scenario(sid)
        if c < 0.12:
            ty, text = chain(r, g)
            d = r.choice([5, 14, 15, 16, 17, 20, 31, 33, 40] if tier == "thorough" else [14, 15, 16, 17, 20, 33])
            t = text(d)
        else:
            i = s.ty(mktype("STRING", 1, dict(ptr=True)))
            ty = s.ty(mktype("SEQUENCE", 8, dict(ptr=True), ent=i))
            # (libyaml hands text on in pieces of 16 KiB)
            n, k = r.choice([(30, 600), (28, 600), (60, 300), (17, 1000)])
            t = b"".join(b"- %s\n" % (b"pqrst" * (k // 5)) for _ in range(n))
        doc = s.doc(t)
        s.op("LOAD", ty, 1, doc, 0, 0)
        s.op("OOML", ty, doc, r.randint(0, 1), 400, 1, 0)
        s.op("COPY", 1, 2)
        s.op("OOMC", 1, 0, r.randint(0, 1), 400, 1)
        s.op("SAVE", 1, 0, 0)
        s.op("OOMS", 1, 0, r.randint(0, 1), 400, 1)
        s.op("FREE", 1)
        s.op("FREE", 2)
        return s
    g = Gen(r, **dict(dict(alias=0.3, opt=0.4, default=0.6, iuk=0.3, ignore=0.5, bad=0.01), **spice(r)))
    s = g.scenario(sid)
    ty = g.root()
    docs = many(r, g, ty, 2)
    n = 400 if tier == "thorough" else 150
    s.op("LOAD", ty, 1, docs[0], 0, 0)
    for mode in r.sample([0, 1], r.choice([1, 2])):
        s.op("OOML", ty, docs[0], mode, n, 1, int(r.random() < 0.1))
    s.op("COPY", 1, 2)
    s.op("OOMC", 1, 0, r.randint(0, 1), n, 1)
    s.op("SAVE", 1, 0, 0)
    s.op("OOMS", 1, 0, r.randint(0, 1), n, 1)
    s.op("FREE", 2)
    s.op("LOAD", ty, 3, docs[1], 0, 0)
    s.op("OOML", ty, docs[1], r.randint(0, 1), n, r.choice([1, 2, 3]), 0)
    s.op("COPY", 3, 4)
    s.op("OOMC", 3, 0, r.randint(0, 1), n, 1)
    s.op("SAVE", 3, 0, 0)
    for i in (1, 3, 4):
        s.op("FREE", i)
    return s


@profile("C04", "err", 900, 15000)
def c04(r, sid, tier):
    kw = dict(struct=0.5, opt=0.4, iuk=0.3, unknown=0.05, nulltext=0.05, kinds=dict(MAPPING=4, SEQUENCE=3, IGNORE=1, STRING=4, FLAGS=1, BITFIELD=1))
    kw.update(spice(r))
    kw["struct"] = 0.5
    g = Gen(r, **kw)
    s = g.scenario(sid)
    tall = r.random() < 0.2
    if tall:
        g.p["fields"] = r.choice([(30, 34), (60, 70), (31, 33)])
        g.p["depth"] = 1
        g.p["omit"] = 0.3
    ty = g.root(kind="MAPPING" if tall else None)
    base = g.value(ty)
    for j in range(6 if tall else 10):
        c = r.random()
        if tall and c < 0.4 and base.k == "M" and base.v:
            # one of the many is missing, or there twice
            n = base.copy()
            k = r.choice([r.randrange(len(n.v)), len(n.v) - 1])
            if r.random() < 0.4:
                del n.v[k]
            else:
                n.v.insert(r.choice([k + 1, len(n.v), r.randint(0, len(n.v))]), (n.v[k][0], n.v[k][1].copy()))
        elif c < 0.15:
            n = g.value(ty)
        elif c < 0.75:
            n = injected(r, g, base, ty)
        else:
            n = g.tree(ty)
        s.op("LOAD", ty, 1, s.doc(g.writer.text(n)), 0, 0)
        s.op("FREE", 1)
    return s


def scalar_types(r, g, kinds, n, fields=False, **fl):
    """Root types of the given kinds."""
    out = []
    for _ in range(n):
        i = g.type(0, top=True, kind=r.choice(kinds))
        g.s[i]["fl"]["opt"] = False
        out.append(i)
    return out


@profile("C05", "err heap", 700, 15000)
def c05(r, sid, tier):
    g = Gen(r, **dict(dict(bad=0.6, nulltext=0.03, range=0.6, strict=0.5, foldnames=0.3), **vary(r, 0.3, weird=1, cb=0.3, ci=0.7)))
    s = g.scenario(sid)
    for ty in scalar_types(r, g, ["INT", "UINT", "ENUM", "FLOAT", "STRING", "BOOL", "INT", "UINT"], 3):
        for d in many(r, g, ty, 6):
            s.op("LOAD", ty, 1, d, 0, 0)
            s.op("FREE", 1)
    # scalars in place, beside each other
    g.p["bad"] = r.choice([0, 0, 0.05])
    g.p["kinds"] = dict(INT=4, UINT=4, BOOL=2, ENUM=3, FLOAT=3, STRING=4)
    g.p["ptr"] = 0.1
    g.p["fields"] = (3, 9)
    ty = g.type(1, top=True, kind="MAPPING")
    for d in many(r, g, ty, 3):
        s.op("LOAD", ty, 2, d, 0, 0)
        s.op("FREE", 2)
    return s


@profile("C06", "err heap em", 700, 12000)
def c06(r, sid, tier):
    g = Gen(r, **dict(dict(bad=0.25, badbits=0.05, nulltext=0.02, strict=0.5, foldnames=0.1, kinds=dict(FLAGS=6, BITFIELD=6), alias=0.1),
                      **vary(r, 0.3, ci=0.7, struct=0.2, cb=0.3, ptr=0.1)))
    s = g.scenario(sid)
    for ty in scalar_types(r, g, ["FLAGS", "BITFIELD"], 2):
        for d in many(r, g, ty, 4):
            s.op("LOAD", ty, 1, d, 0, 0)
            s.op("SAVE", 1, 0, 0)
            s.op("FREE", 1)
        b, n = g.blocks(ty, 0.3)
        s.op("BUILD", ty, 2, n, blocks=b)
        s.op("SAVE", 2, 0, 0)
        s.op("RELOAD", ty, 3, 0, 0)
        s.op("FREE", 2)
        s.op("FREE", 3)
    g.p["kinds"] = dict(FLAGS=6, BITFIELD=6, INT=1, MAPPING=1)
    g.p["bad"] = 0.02
    ty = g.type(2, top=True, kind=r.choice(["MAPPING", "MAPPING", "SEQUENCE", "SEQUENCE_FIXED"]))
    for d in many(r, g, ty, 2):
        s.op("LOAD", ty, 3, d, 0, 0)
        s.op("SAVE", 3, 0, 0)
        s.op("RELOAD", ty, 4, 0, 0)
        s.op("FREE", 3)
        s.op("FREE", 4)
    return s


@profile("C07", "heap heaperr", 800, 12000)
def c07(r, sid, tier):
    g = Gen(r, **dict(dict(gaps=0.7, ptr=0.3, depth=4, fields=(1, 9), kinds=dict(INT=2, UINT=2, MAPPING=4, SEQUENCE=4, SEQUENCE_FIXED=3, STRING=3, BOOL=1, FLOAT=1),
                           opt=0.3, default=0.5, nls=0.2), **spice(r)))
    s = g.scenario(sid)
    ty = g.root()
    for i, d in enumerate(many(r, g, ty, 4)):
        s.op("LOAD", ty, 1 + i, d, 0, fileflag(r))
    s.op("COPY", 1, 6)
    s.op("COPY", 2, 7)
    b, n = g.blocks(ty)
    s.op("BUILD", ty, 8, n, blocks=b)
    s.op("COPY", 8, 9)
    for i in (1, 6, 2, 7, 3, 4, 8, 9):
        s.op("FREE", i)
    return s


@profile("C08", "err heap heaperr ro out", 800, 12000)
def c08(r, sid, tier):
    g = Gen(r, **dict(dict(opt=0.9, default=0.8, omit=0.7, baddefault=0.03, ro=0.7, cb=0.15,
                           kinds=dict(INT=2, UINT=2, BOOL=1, ENUM=2, FLAGS=2, FLOAT=2, STRING=3, MAPPING=4, SEQUENCE=4, SEQUENCE_FIXED=3, BITFIELD=2)), **spice(r)))
    s = g.scenario(sid)
    ty = g.root()
    for i, d in enumerate(many(r, g, ty, 3)):
        s.op("LOAD", ty, 1 + i, d, 0, 0)
    s.op("LOAD", ty, 4, s.doc(b"{}\n"), 0, 0)
    s.op("COPY", 4, 5)
    for i in (1, 2, 3, 4, 5):
        s.op("FREE", i)
    s.op("LOAD", ty, 1, r.randrange(len(s.docs)), 0, 0)
    s.op("FREE", 1)
    return s


@profile("C09", "err heap heaperr em", 800, 12000)
def c09(r, sid, tier):
    g = Gen(r, **dict(dict(ptr=0.8, nul=0.6, nls=0.6, nulltext=0.35, opt=0.4, default=0.2, alias=0.1, bad=0.02), **vary(r, 0.25, recursive=0.4, depth=4, cb=0.3, weird=1)))
    s = g.scenario(sid)
    ty = g.root()
    if r.random() < 0.3:
        for t in s.types:
            if t["t"] == "STRING" and t["fl"]["ptr"] and t["sm"] is None and not t["sm"]:
                t["smin"] = 0
    for i, d in enumerate(many(r, g, ty, 4)):
        s.op("LOAD", ty, 1 + i, d, 0, 0)
        if i < 3:
            s.op("SAVE", 1 + i, 0, 0)
            s.op("COPY", 1 + i, 6 + i)
    b, n = g.blocks(ty, r.choice([0, 0, 0.5]))
    s.op("BUILD", ty, 11, n, blocks=b)
    s.op("SAVE", 11, 0, 0)
    s.op("COPY", 11, 12)
    s.op("RELOAD", ty, 13, 0, 0)
    for i in (1, 2, 3, 4, 6, 7, 8, 11, 12, 13):
        s.op("FREE", i)
    return s


@profile("C10", "err heap heaperr leak cb", 900, 15000)
def c10(r, sid, tier):
    g = Gen(r, **dict(dict(alias=1, noalias=0.1, nulltext=0.1, iuk=0.3, ignore=0.5, bad=0.01, entries=(0, 5), kinds=dict(MAPPING=4, SEQUENCE=4, STRING=3, FLAGS=1, BITFIELD=1, IGNORE=1)),
                      **vary(r, 0.25, recursive=0.5, depth=5, cb=0.4, opt=0.6, fields=(1, 10), struct=0.2)))
    s = g.scenario(sid)
    ty = g.root()
    for i in range(6):
        n = g.value(ty)
        n = g.add_aliases(n, r.randint(1, 6), good=r.random() < 0.75)
        t = g.writer.text(n)
        s.op("LOAD", ty, 1 + i % 2, s.doc(t), 0, fileflag(r))
        if r.random() < 0.15:
            s.op("LOAD", ty, 3, len(s.docs) - 1, r.randint(1, 5), 0)
            s.op("FREE", 3)
        if i % 2:
            s.op("FREE", 1)
            s.op("FREE", 2)
    return s


def junk(r):
    """A value nested past any small count."""
    n = r.choice([3, 15, 16, 17, 31, 33, 63, 65, 100, 126, 127, 128, 129, 130, 150, 200, 254, 255, 256, 257, 258, 300])
    c = r.random()
    if c < 0.35:
        return b"[" * n + b"1, 2" + b"]" * n
    if c < 0.6:
        return b"{x: " * n + b"{}" + b"}" * n
    if c < 0.8:
        return b"[{x: " * (n // 2) + b"q" + b"}, y]" * (n // 2)
    return b"[" + b", ".join([b"{a: [1, {}], b: []}"] * n) + b"]"


def buried(r, sid):
    """Values of no consequence, deep or wide, among those that matter."""
    g = Gen(r, **vary(r, 0.2, ci=0.6))
    s = g.scenario(sid)
    s.cfg["iuk"] = True
    i = s.ty(mktype("INT", 4))
    x = s.ty(mktype("IGNORE", 0, dict(opt=True)))
    m = s.ty(mktype("MAPPING", 0, dict(ptr=True)))
    g.set_fields(m, [i, x, i], [b"a", b"g", b"b"])
    for _ in range(3):
        parts = [b"a: 5", b"b: 6"] + [k + b": " + junk(r) for k in r.sample([b"g", b"zz", b"yy"], r.randint(1, 2))]
        if r.random() < 0.3:
            parts.remove(r.choice([b"a: 5", b"b: 6"]))
        r.shuffle(parts)
        s.op("LOAD", m, 1, s.doc(b"{" + b", ".join(parts) + b"}"), 0, 0)
        s.op("FREE", 1)
    s.op("LOAD", m, 1, s.doc(b"{a: 5, b: 6, zz: " + junk(r)), 0, 0)
    s.op("FREE", 1)
    return s


@profile("C11", "err heap heaperr cb leak", 800, 12000)
def c11(r, sid, tier):
    if r.random() < 0.04:
        return buried(r, sid)
    g = Gen(r, **dict(dict(iuk=0.85, ignore=0.9, unknown=0.1, alias=0.5, nulltext=0.1, opt=0.5, kinds=dict(IGNORE=4, MAPPING=3, SEQUENCE=2, STRING=3, INT=3)),
                      **vary(r, 0.25, recursive=0.4, depth=4, cb=0.5, fields=(1, 10), struct=0.1)))
    s = g.scenario(sid)
    ty = g.root(kind=None if r.random() < 0.3 else "MAPPING")
    for i in range(5):
        n = g.tree(ty)
        # what is ignored may define anchors, and refer to those before it
        if r.random() < 0.6:
            ign = [x for x, p, _ in walk(n) if x.k != "A" and not x.ty]
            for x in r.sample(ign, min(len(ign), 3)):
                if not s.cfg["noalias"]:
                    x.anchor = x.anchor or r.choice([b"ig1", b"ig2"])
        s.op("LOAD", ty, 1 + i % 3, s.doc(g.writer.text(n)), 0, 0)
        if i == 2:
            for j in (1, 2, 3):
                s.op("FREE", j)
    s.op("FREE", 1)
    s.op("FREE", 2)
    return s


@profile("C12", "cb err", 800, 12000)
def c12(r, sid, tier):
    g = Gen(r, **dict(dict(cb=0.7, nulltext=0.2, bad=0.02, default=0.6), **spice(r)))
    g.p["cb"] = 0.7
    s = g.scenario(sid)
    ty = g.root()
    docs = many(r, g, ty, 3)
    for d in docs:
        s.op("LOAD", ty, 1, d, 0, 0)
        s.op("FREE", 1)
    n = 12 if tier == "thorough" else 6
    for k in r.sample(range(1, 2 * n + 1), n):
        s.op("LOAD", ty, 2, r.choice(docs), k, 0)
        s.op("FREE", 2)
    return s


@profile("C13", "err heap heaperr out", 800, 12000)
def c13(r, sid, tier):
    g = Gen(r, **dict(dict(bad=0.15, nulltext=0.08, topseq=0.4, kinds=dict(SEQUENCE=8, SEQUENCE_FIXED=4, MAPPING=3, INT=3, STRING=3), entries=(0, 9)),
                      **vary(r, 0.25, recursive=0.4, cb=0.2, alias=0.3, opt=0.6, unlimited=0.8, depth=4)))
    s = g.scenario(sid)
    ty = g.root()
    old = g.p["bad"]
    for i in range(6):
        g.p["bad"] = old if i else 0
        s.op("LOAD", ty, 1 + i % 3, s.doc(g.document(ty)), 0, fileflag(r))
        if i == 2:
            s.op("SAVE", 1, 0, 0)
            s.op("COPY", 2, 5)
            for j in (1, 2, 3, 5):
                s.op("FREE", j)
    if r.random() < 0.15:
        # more entries than a small count can hold
        i = s.ty(mktype("UINT", 1))
        q = s.ty(mktype("SEQUENCE", 1, dict(ptr=True), ent=i, smax=r.choice([UNLIMITED, 255, 256, 300])))
        m = s.ty(mktype("MAPPING", 0, dict(ptr=True)))
        g.set_fields(m, [q, i])
        for f in s[m]["fields"]:
            if f["ty"] == q:
                f["csz"] = 1 if r.random() < 0.8 else f["csz"]
        qn, inn = [f["key"] for f in s[m]["fields"]]
        for n in r.sample([254, 255, 256, 257, 300], 2):
            t = b"%s: [%s]\n%s: 7\n" % (qn, b", ".join(b"%d" % (x % 256) for x in range(n)), inn)
            s.op("LOAD", m, 4, s.doc(t), 0, 0)
            s.op("FREE", 4)
    for j in (1, 2, 3):
        s.op("FREE", j)
    return s


@profile("C14", "err em out heap ro", 800, 12000)
def c14(r, sid, tier):
    g = Gen(r, **dict(dict(weird=0.5, opt=0.5, nul=0.5, alias=0.1, bad=0.01), **spice(r)))
    s = g.scenario(sid)
    ty = g.root()
    for i in range(r.randint(2, 4)):
        b, n = g.blocks(ty, r.choice([0, 0, 0.1, 0.5]))
        s.op("BUILD", ty, 1, n, blocks=b)
        s.op("SAVE", 1, 0, 0)
        s.op("FREE", 1)
    for d in many(r, g, ty, 3):
        s.op("LOAD", ty, 2, d, 0, 0)
        s.op("SAVE", 2, 0, 0)
        s.op("FREE", 2)
    return s


def nullish(b):
    return b in (b"", b"~", b"null", b"Null", b"NULL")


def roundtrip_ok(g):
    """Strings spelt like null are read back as NULL where that is allowed for text: not exact by design."""
    return True


@profile("C15", "iso text err em", 800, 12000)
def c15(r, sid, tier):
    kw = dict(dict(weird=0.6, opt=0.4, alias=0.1, nulltext=0.1, sstyle=0.3, style=0.3, block=0.2, flow=0.2, delim=0.2, cb=0, loosedef=0), **vary(r, 0.25, recursive=0.4, depth=4, fields=(1, 12), unlimited=0.9, iuk=0.7, ptr=0.7))
    kw["kinds"] = dict(IGNORE=0)
    g = Gen(r, **kw)
    s = g.scenario(sid)
    s.cfg["noalias"] = False
    ty = g.root()
    for d in many(r, g, ty, 2):
        s.op("LOAD", ty, 1, d, 0, 0)
        s.op("SAVE", 1, 0, 0)
        s.op("RELOAD", ty, 2, 0, fileflag(r), iso=1)
        s.op("SAVE", 2, 0, 0, same=1)
        s.op("FREE", 1)
        s.op("FREE", 2)
    return s


@profile("C16", "err heap heaperr out ro", 800, 12000)
def c16(r, sid, tier):
    g = Gen(r, **dict(dict(opt=0.4, default=0.4, nul=0.5, ptr=0.5, alias=0.1, depth=4), **spice(r)))
    s = g.scenario(sid)
    ty = g.root()
    d = many(r, g, ty, 2)
    s.op("LOAD", ty, 1, d[0], 0, 0)
    s.op("COPY", 1, 2)
    s.op("COPY", 2, 3)
    s.op("FREE", 1)
    s.op("COPY", 2, 4)
    s.op("SAVE", 4, 0, 0)
    for i in range(3):
        b, n = g.blocks(ty, r.choice([0, 0, 0.2, 0.6]))
        s.op("BUILD", ty, 6, n, blocks=b)
        s.op("COPY", 6, 7)
        s.op("FREE", 6)
        s.op("FREE", 7)
    s.op("LOAD", ty, 8, d[1], 0, 0)
    s.op("COPY", 8, 9)
    s.op("OOMC", 8, 0, r.randint(0, 1), 40, 1)
    for i in (2, 3, 4, 8, 9):
        s.op("FREE", i)
    return s


@profile("C17", "err heap em", 900, 15000)
def c17(r, sid, tier):
    g = Gen(r, **dict(dict(foldnames=1, ci=0.5, case=0.5, casevary=0.9, nulltext=0.02, fields=(1, 6), kinds=dict(ENUM=5, FLAGS=4, BITFIELD=4, MAPPING=3, INT=1), opt=0.5, bad=0.02),
                      **vary(r, 0.2, iuk=0.7, alias=0.3)))
    s = g.scenario(sid)
    ty = g.root(kind=r.choice(["MAPPING", "MAPPING", "ENUM", "FLAGS", "BITFIELD"]))
    for d in many(r, g, ty, 7):
        s.op("LOAD", ty, 1, d, 0, 0)
        s.op("SAVE", 1, 0, 0)
        s.op("FREE", 1)
    return s


@profile("C18", "style text em err", 800, 12000)
def c18(r, sid, tier):
    g = Gen(r, **dict(dict(style=0.6, sstyle=0.5, block=0.3, flow=0.3, delim=0.4, depth=4, weird=r.choice([0, 0, 0.5]), nul=0.4), **vary(r, 0.25, recursive=0.4, fields=(1, 10), topother=0.5, entries=(0, 10))))
    s = g.scenario(sid)
    ty = g.root()
    for d in many(r, g, ty, 3):
        s.op("LOAD", ty, 1, d, 0, 0)
        s.op("SAVE", 1, 0, 0)
        s.op("RELOAD", ty, 2, 0, 0)
        s.op("SAVE", 2, 0, 0)
        s.op("FREE", 2)
        s.op("FREE", 1)
    b, n = g.blocks(ty)
    s.op("BUILD", ty, 3, n, blocks=b)
    s.op("SAVE", 3, 0, 0)
    s.op("FREE", 3)
    return s


@profile("C19", "param out err leak", 400, 5000)
def c19(r, sid, tier):
    g = Gen(r, **vary(r, 0.3, topother=0.7, topseq=0.5, cb=0.5))
    s = g.scenario(sid)
    ty = g.root()
    d = s.doc(g.document(ty))
    s.op("LOAD", ty, 1, d, 0, 0)
    b, n = g.blocks(ty)
    s.op("BUILD", ty, 2, n, blocks=b)
    bare = s.ty(mktype(r.choice(["INT", "UINT", "FLOAT"]), 4))
    for _ in range(14):
        api = r.randint(0, 5)
        bits = 0
        for bit in (1, 2, 4, 8, 16):
            if r.random() < 0.35:
                bits |= bit
        if api == 2 and r.random() < 0.4:
            bits |= 32
        if api == 5:
            bits &= ~(8 | 16)
            if not bits & 7:
                bits |= r.choice([1, 2, 4])
        if bits == 0:
            bits = 1 << r.randint(0, 4)
        s.op("PARAM", api, bits, ty, 2)
    for api in (0, 1, 3, 4):
        # the topmost value must be a pointer
        s.op("PARAM", api, 0, bare, -1) if api < 2 else None
    s.op("PARAM", 5, 16, ty, -1)
    s.op("COPY", 2, 3)
    s.op("SAVE", 2, 0, 0)
    for i in (1, 2, 3):
        s.op("FREE", i)
    return s


@profile("C20", "bt log err", 800, 12000)
def c20(r, sid, tier):
    g = Gen(r, **dict(dict(bad=0.02, depth=5, cb=0.3, alias=0.2, nolog=0.15, kinds=dict(MAPPING=4, SEQUENCE=4, SEQUENCE_FIXED=1, STRING=2, INT=2), entries=(0, 6)), **spice(r)))
    s = g.scenario(sid)
    ty = g.root()
    base = g.tree(ty)
    for _ in range(5):
        s.op("LOAD", ty, 1, s.doc(g.writer.text(injected(r, g, base, ty))), 0, 0)
        s.op("FREE", 1)
    good = s.doc(g.writer.text(base))
    for k in r.sample(range(1, 10), 2):
        s.op("LOAD", ty, 2, good, k, 0)
        s.op("FREE", 2)
    for _ in range(2):
        b, n = g.blocks(ty, r.choice([0.2, 0.6, 1]))
        s.op("BUILD", ty, 3, n, blocks=b)
        s.op("SAVE", 3, 0, 0)
        s.op("COPY", 3, 4)
        s.op("FREE", 3)
        s.op("FREE", 4)
    return s


EVERY = "leak log ro err out heap heaperr cb bt iso em style text io oom oomheap param"


@profile("C21", EVERY, 350, 6000, threads=True)
def c21(r, sid, tier):
    """The same calls, first alone (where they must conform for this property to
    say anything) and then in the midst of other calls or of other threads."""
    g = Gen(r, **dict(dict(bad=0.05, alias=0.3, cb=0.3, struct=0.05, opt=0.4, default=0.5, style=0.2, sstyle=0.2), **spice(r)))
    s = g.scenario(sid)
    ty = g.root()
    docs = many(r, g, ty, 3)
    other = many(r, g, ty, 3)
    calls = []

    def script(slots, rej):
        a, b, c = slots
        s.op("LOAD", ty, a, docs[0], 0, 0)
        s.op("SAVE", a, 0, 0)
        s.op("COPY", a, b)
        s.op("LOAD", ty, c, docs[1], rej, 0)
        s.op("SAVE", c, 0, 0)
        s.op("FREE", b)
        s.op("FREE", c)
        s.op("LOAD", ty, c, docs[2], 0, 0)
        s.op("COPY", c, b)
        s.op("FREE", c)
        s.op("FREE", b)
        s.op("FREE", a)
    rej = r.choice([0, 0, 0, 1, 2, 3])
    if r.random() < 0.5:
        # a prelude kept by all; then the same in several threads at once
        s.op("LOAD", ty, 10, docs[0], 0, 0)
        s.op("SAVE", 10, 0, 0)
        script((1, 2, 3), rej)
        s.split = len(s.ops)
        s.threads = r.choice([2, 3, 4])
        for _ in range(2):
            s.op("SAVE", 10, 0, 0)
            s.op("COPY", 10, 11)
            script((1, 2, 3), rej)
            s.op("FREE", 11)
    else:
        script((1, 2, 3), rej)
        s.split = len(s.ops)
        for _ in range(3):
            for d in r.sample(other, r.randint(0, 2)):
                s.op("LOAD", ty, r.randint(8, 9), d, r.choice([0, 0, 1]), 0)
            if r.random() < 0.4:
                s.op("OOML", ty, docs[0], r.randint(0, 1), 30, r.randint(1, 5), 0)
            if r.random() < 0.5:
                s.op("FREE", 8)
            if r.random() < 0.3:
                s.op("PARAM", r.choice([0, 3]), 4, ty, 8)
            script((1, 2, 3) if r.random() < 0.5 else (4, 5, 6), rej)
        s.op("FREE", 8)
        s.op("FREE", 9)
    for o in s.ops[:s.split]:
        o["own"] = False
    return s


@profile("C22", "io err out leak", 400, 6000)
def c22(r, sid, tier):
    g = Gen(r, **dict(dict(weird=0.3), **spice(r)))
    s = g.scenario(sid)
    big = r.random() < 0.04
    ty = g.root()
    if big:
        i = s.ty(mktype("STRING", 1, dict(ptr=True)))
        ty = s.ty(mktype("SEQUENCE", 8, dict(ptr=True), ent=i))
        t = b"".join(b"- %s\n" % (bytes(r.choice(b"abcdefgh") for _ in range(60)) * 10) for _ in range(r.choice([5, 30])))
        docs = [s.doc(t)]
    else:
        docs = many(r, g, ty, 2)
    for d in docs:
        s.op("LOAD", ty, 1, d, 0, 0)
        s.op("LOAD", ty, 2, d, 0, 1)
        s.op("SAVE", 1, 0, 0)
        s.op("SAVE", 1, 1, 0)
        s.op("SAVE", 1, 1, 1)
        s.op("SAVE", 1, 2, 0)
        s.op("SAVE", 1, 4, 0)
        lims = {0, 1, r.randint(2, 60), -1, -2, -r.randint(3, 40)}
        if big:
            lims |= {16383, 16384, 16385, r.randint(1000, 30000)}
        for l in sorted(lims):
            s.op("SAVE", 1, 3, l)
        s.op("SAVE", 2, 1, 0)
        s.op("BADPATH", ty, 0)
        s.op("BADPATH", ty, 1)
        for api in (1, 4):
            s.op("PARAM", api, 64 | r.choice([0, 0, 4, 8]), ty, 1)
        s.op("FREE", 1)
        s.op("FREE", 2)
    return s


def vast(r, sid, tier):
    """Text longer than libyaml's buffers, and thousands of entries."""
    g = Gen(r)
    s = g.scenario(sid)
    if r.random() < 0.6:
        n = r.choice([16383, 16384, 16385, 20000, 33000] + [65535, 65536, 70000] * (tier == "thorough"))
        st = s.ty(mktype("STRING", 1, dict(ptr=True)))
        j = s.ty(mktype("STRING", n + 1, {}, smax=n - r.randint(0, 1)))
        m = s.ty(mktype("MAPPING", 0, dict(ptr=True)))
        g.set_fields(m, [s.ty(mktype("UINT", 1)), r.choice([st, j])], [b"a", b"b"])
        t = b"{a: 1, b: \"" + r.choice([b"x" * n, b"word " * (n // 5) + b"y" * (n % 5), b"\xc3\xa9" * (n // 2) + b"y" * (n % 2)]) + b"\"}"
        ty = m
    else:
        n = r.choice([600, 1000, 1024, 1025, 2049] + [4000, 4097, 8200] * (tier == "thorough"))
        e = s.ty(mktype("INT", r.choice([1, 2])))
        ty = s.ty(mktype("SEQUENCE", s[e]["sz"], dict(ptr=True), ent=e))
        t = b"[" + b", ".join(b"%d" % (x % 120) for x in range(n)) + b"]"
        if r.random() < 0.5:
            m = s.ty(mktype("MAPPING", 0, dict(ptr=True)))
            g.set_fields(m, [ty], [b"q"])
            s[m]["fields"][0]["csz"] = max(2, s[m]["fields"][0]["csz"])
            t = b"q: " + t
            ty = m
    s.op("LOAD", ty, 1, s.doc(t), 0, r.randint(0, 1))
    s.op("SAVE", 1, 0, 0)
    if r.random() < 0.5:
        s.op("COPY", 1, 2)
    s.op("FREE", 1)
    s.op("FREE", 2)
    return s


@profile("C23", "err heap heaperr em out leak cb", 250, 3000, limit=60)
def c23(r, sid, tier):
    g = Gen(r, **dict(dict(cb=0.1, gaps=0.2), **vary(r, 0.2, ci=0.6, iuk=0.6)))
    s = g.scenario(sid)
    kind = r.choice(["wide", "wide", "deep", "long", "strings", "alias", "skip", "names", "bits"])
    if r.random() < 0.04:
        return vast(r, sid, tier)
    if kind == "wide":
        # many fields, some missing
        n = r.choice([31, 32, 33, 63, 64, 65, 96, 97, 130, 200])
        g.p.update(opt=r.choice([0.1, 0.5]), default=0.5, omit=r.choice([0.2, 0.6]), ptr=0.1, kinds=dict(INT=5, UINT=3, STRING=2, MAPPING=0, SEQUENCE=0, SEQUENCE_FIXED=0))
        d = mktype("MAPPING", 0, dict(ptr=True))
        ty = s.ty(d)
        g.layout(ty, 0, nfields=n)
        for _ in range(3):
            root = g.value(ty)
            s.op("LOAD", ty, 1, s.doc(g.writer.text(root)), 0, 0)
            s.op("SAVE", 1, 0, 0)
            s.op("COPY", 1, 2)
            s.op("FREE", 1)
            s.op("FREE", 2)
            m = root.copy()
            for _ in range(r.choice([1, 1, 2])):
                if m.k == "M" and m.v:
                    if r.random() < 0.6:
                        del m.v[r.randrange(len(m.v))]
                    else:
                        m.v.append((r.choice(m.v)[0], S(b"1")))
            s.op("LOAD", ty, 1, s.doc(g.writer.text(m)), 0, 0)
            s.op("FREE", 1)
    elif kind == "deep":
        # nested data of a recursive schema
        m, text = chain(r, g)
        for depth in r.sample([3, 15, 16, 17, 31, 32, 33, 40, 64, 65, 90], 2):
            t = text(depth, b"{v: x}" if r.random() < 0.3 else b"{v: 2}")
            d = s.doc(t)
            s.op("LOAD", m, 1, d, 0, 0)
            s.op("SAVE", 1, 0, 0)
            s.op("COPY", 1, 2)
            s.op("RELOAD", m, 3, 0, 0, iso=1) if b"x}" not in t else None
            for k in (1, 2, 3):
                s.op("FREE", k)
    elif kind == "long":
        sz = r.choice([1, 2, 3, 8])
        i = s.ty(mktype("UINT", sz))
        q = s.ty(mktype("SEQUENCE", sz, dict(ptr=True), ent=i))
        m = s.ty(mktype("MAPPING", 0, dict(ptr=True)))
        g.set_fields(m, [q, i])
        qn, inn = [f["key"] for f in s[m]["fields"]]
        n = r.choice([7, 8, 9, 15, 16, 17, 31, 33, 63, 64, 65, 127, 129, 255, 256, 257, 400])
        t = b"%s: [%s]\n%s: 7\n" % (qn, b", ".join(b"%d" % (x % 256) for x in range(n)), inn)
        s.op("LOAD", m, 1, s.doc(t), 0, 0)
        s.op("SAVE", 1, 0, 0)
        s.op("COPY", 1, 2)
        s.op("LOAD", q, 3, s.doc(b"[" + b", ".join(b"%d" % (x % 256) for x in range(n)) + b"]"), 0, 0)
        s.op("SAVE", 3, 0, 0)
        s.op("COPY", 3, 4)
        for k in (1, 2, 3, 4):
            s.op("FREE", k)
    elif kind == "strings":
        n = r.choice([100, 255, 256, 1000, 4096, 5000])
        i = s.ty(mktype("STRING", 1, dict(ptr=True)))
        c = r.choice([n - 1, n, n + 1])
        j = s.ty(mktype("STRING", c + 1, {}, smin=0, smax=c))
        m = s.ty(mktype("MAPPING", 0, dict(ptr=True)))
        g.set_fields(m, [i, j], [b"a", b"b"])
        t = b"a: %s\nb: %s\n" % (b"x" * n, b"y" * n)
        s.op("LOAD", m, 1, s.doc(t), 0, r.randint(0, 1))
        s.op("SAVE", 1, 0, 0)
        s.op("COPY", 1, 2)
        s.op("FREE", 1)
        s.op("FREE", 2)
        if n == 1000:
            q = s.ty(mktype("SEQUENCE", 8, dict(ptr=True), ent=i))
            s.op("LOAD", q, 3, s.doc(b"".join(b"- %s\n" % (b"z" * n) for _ in range(20))), 0, 0)
            s.op("SAVE", 3, 0, 0)
            s.op("FREE", 3)
    elif kind == "alias":
        # more anchors and longer recordings than the first allocations hold
        i = s.ty(mktype("UINT", 2))
        q = s.ty(mktype("SEQUENCE", 2, dict(ptr=True, opt=True), ent=i, smin=0))
        m = s.ty(mktype("MAPPING", 0, {}))
        g.set_fields(m, [q, s.ty(mktype("UINT", 1, dict(opt=True)))], [b"q", b"u"])
        top = s.ty(mktype("SEQUENCE", s[m]["sz"], dict(ptr=True), ent=m, smin=0))
        n = r.choice([3, 7, 8, 9, 15, 16, 17, 33])
        k = r.choice([1, 5, 14, 15, 16, 30])
        parts = []
        for x in range(n):
            c = r.random()
            if x and c < 0.5:
                parts.append(b"*a%d " % r.randrange(x) if r.random() < 0.5 else b"{q: *q%d , u: %d}" % (r.randrange(x), x))
                parts[-1] = parts[-1] if parts[-1].startswith(b"{") else parts[-1]
            else:
                parts.append(None)
        out = []
        defd = []
        for x in range(n):
            if defd and r.random() < 0.5:
                y = r.choice(defd)
                out.append(b"*a%d " % y if r.random() < 0.5 else b"{q: *q%d , u: %d}" % (y, x))
            else:
                out.append(b"&a%d {q: &q%d [%s], u: &u%d %d}" % (x, x, b", ".join(b"%d" % v for v in range(k)), x, x))
                defd.append(x)
        s.op("LOAD", top, 1, s.doc(b"[" + b", ".join(out) + b"]"), 0, 0)
        s.op("COPY", 1, 2)
        s.op("SAVE", 1, 0, 0)
        s.op("FREE", 1)
        s.op("FREE", 2)
    elif kind == "skip":
        return buried(r, sid)
    elif kind == "names":
        # long names, and many values
        n = r.choice([20, 40, 70])
        st = [(b"name%d" % x, x) for x in range(n)]
        fl = [(b"f%d" % x, 1 << x) for x in range(63)]
        e = s.ty(mktype("ENUM", 4, dict(strict=True), strs=st))
        l = s.ty(mktype("FLAGS", 8, dict(strict=True), strs=fl))
        m = s.ty(mktype("MAPPING", 0, dict(ptr=True)))
        g.set_fields(m, [e, l], [b"k" * r.choice([50, 200]), b"l" * r.choice([60, 300])])
        for _ in range(3):
            s.op("LOAD", m, 1, s.doc(g.document(m)), 0, 0)
            s.op("SAVE", 1, 0, 0)
            s.op("FREE", 1)
        allf = b", ".join(b"f%d" % x for x in r.sample(range(63), 63))
        a, b = [f["key"] for f in s[m]["fields"]]
        s.op("LOAD", m, 1, s.doc(b"{? %s : name%d, ? %s : [%s]}" % (a, n - 1, b, allf)), 0, 0)
        s.op("SAVE", 1, 0, 0)
        s.op("FREE", 1)
    else:
        bl = [(b"b%d" % x, x, 1) for x in range(64)]
        b = s.ty(mktype("BITFIELD", 8, dict(ptr=True), bits=bl))
        for _ in range(3):
            s.op("LOAD", b, 1, s.doc(b"{" + b", ".join(b"b%d: %d" % (x, r.randint(0, 1)) for x in r.sample(range(64), r.randint(1, 64))) + b"}"), 0, 0)
            s.op("SAVE", 1, 0, 0)
            s.op("FREE", 1)
    return s


@profile("C24", "err heaperr out leak heap", 900, 15000)
def c24(r, sid, tier):
    g = Gen(r, **dict(dict(alias=0.3, struct=0.1, weird=0.3), **spice(r)))
    s = g.scenario(sid)
    ty = g.root()
    toks = [b"{", b"}", b"[", b"]", b":", b",", b"-", b"?", b"&a ", b"*a ", b"!t ", b"!!str ", b"|\n", b">\n", b"'", b'"', b"%", b"@", b"`", b"#", b"\n", b"\t",
            b"---\n", b"...\n", b"\x00", b"\xff", b"\xc3", b"\xef\xbb\xbf", b"\xfe\xff", b"~", b"null", b" ", b"\r\n", b"\xc2\x85", b"\xe2\x80\xa8", b"\x7f", b"\x1b",
            b"*nosuch", b"<<: ", b"%YAML 9.9\n", b"%TAG ! tag:x,2000:\n", b"- - - ", b"? ? ", b"\\", b"=", b"0", b"1e999"]
    for _ in range(8):
        t = bytearray(g.document(ty))
        c = r.random()
        if c < 0.1:
            t = bytearray(bytes(t).decode("utf8", "replace").encode(r.choice(["utf-16", "utf-16-le", "utf-16-be", "utf-8-sig"])))
        elif c < 0.15:
            t = bytearray(bytes(r.getrandbits(8) for _ in range(r.randint(0, 40))))
        elif c < 0.22:
            t = bytearray(b"".join(r.choice(toks) for _ in range(r.randint(0, 15))))
        elif c < 0.28:
            t = bytearray(bytes(t) + r.choice([b"---\n", b"...\n---\n"]) + g.document(ty))
        elif c < 0.31:
            t = bytearray(r.choice([b"", b" ", b"\n", b"# only a comment\n", b"---\n", b"...\n", b"--- \n...\n", b"%YAML 1.1\n---\n", b"\xef\xbb\xbf"]))
        else:
            for _ in range(r.choice([1, 1, 1, 2, 3, 6])):
                k = r.random()
                p = r.randint(0, len(t))
                if k < 0.25 and t:
                    t[p % len(t)] = r.getrandbits(8)
                elif k < 0.45:
                    t[p:p] = r.choice(toks)
                elif k < 0.65 and t:
                    q = min(len(t), p + r.randint(1, 6))
                    del t[p:q]
                elif k < 0.75:
                    t = t[:p]
                elif k < 0.9 and t:
                    q = min(len(t), p + r.randint(1, 30))
                    z = r.randint(0, len(t))
                    t[z:z] = t[p:q]
                elif t:
                    t[p % len(t)] ^= 1 << r.randint(0, 7)
        s.op("LOAD", ty, 1, s.doc(bytes(t)), 0, int(r.random() < 0.1))
        s.op("FREE", 1)
    return s


@profile("C25", "out heap heaperr cb leak style em text bt iso err", 500, 6000)
def c25(r, sid, tier):
    """Schemas in the header's macros, structures in C."""
    for _ in range(40):
        even = {k: r.choice([1, 2, 3]) for k in ("INT", "UINT", "BOOL", "ENUM", "FLAGS", "FLOAT", "STRING", "MAPPING", "BITFIELD", "SEQUENCE", "SEQUENCE_FIXED")}
        g = Gen(r, **dict(dict(kinds=dict(even, IGNORE=0.4), bad=0.03, opt=0.4, default=0.3, loosedef=0, baddefault=0, cb=0.1, range=0.2, ptr=0.45, unlimited=0.6,
                               topseq=0.3, topother=0.2, fields=(2, 9), gaps=0.5, style=0.2, sstyle=0.2), **vary(r, 0.2, recursive=0.5, depth=4, cb=0.5, nul=0.6, nls=0.5)))
        s = g.scenario(sid)
        ty = g.root()
        if macros.can(s):
            break
    s.macros = macros.can(s)
    for i in range(4):
        tree = g.tree(ty)
        strings = [(x, p, k) for x, p, k in walk(tree) if x.ty and x.k == "S" and s.types[x.ty - 1]["t"] == "STRING" and s.types[x.ty - 1]["smax"] < 300 and p is not None]
        if i > 1 and strings:      # exactly as long as there is room for, or one more
            x, p, k = r.choice(strings)
            replace(p, k, S(b"w" * (s.types[x.ty - 1]["smax"] + (i == 3)), x.ty))
        s.op("LOAD", ty, 1, s.doc(g.writer.text(tree)), 0, fileflag(r))
        s.op("SAVE", 1, 0, 0)
        s.op("RELOAD", ty, 2, 0, 0)
        s.op("COPY", 1, 3)
        s.op("FREE", 1)
        s.op("FREE", 3)
    tree = g.tree(ty)
    strings = [(x, p, k) for x, p, k in walk(tree) if x.ty and x.k == "S" and s.types[x.ty - 1]["t"] == "STRING" and s.types[x.ty - 1]["smax"] == UNLIMITED and p is not None]
    if strings and r.random() < 0.4:      # no limit
        x, p, k = r.choice(strings)
        replace(p, k, S(b"w" * 66000, x.ty))
        s.op("LOAD", ty, 6, s.doc(g.writer.text(tree)), 0, 0)
        s.op("FREE", 6)
    b, n = g.blocks(ty)
    s.op("BUILD", ty, 4, n, blocks=b)
    s.op("SAVE", 4, 0, 0)
    s.op("COPY", 4, 5)
    for i in (2, 4, 5):
        s.op("FREE", i)
    return s


@profile("C26", "say log", 700, 10000)
def c26(r, sid, tier):
    """What the client's log is told of errors and of things passed over."""
    g = Gen(r, **dict(dict(bad=0.01, iuk=0.75, warn=0.7, unknown=0.35, ignore=0.7, nolog=0.03, ci=0.4, foldnames=r.choice([0, 0, 0.5]), cb=0.1, alias=r.choice([0, 0.3]),
                           kinds=dict(MAPPING=5, SEQUENCE=3, STRING=2, IGNORE=3), opt=0.5, entries=(0, 5)), **spice(r)))
    s = g.scenario(sid)
    s.level = r.choice([0, 1, 2, 3, 3, 3, 4])
    ty = g.root()
    base = g.tree(ty)
    for i in range(5):
        t = g.writer.text(base if i == 0 else g.tree(ty) if i < 3 else injected(r, g, base, ty))
        c = r.random()
        if c < 0.25:
            t = t + r.choice([b"---\n", b"...\n---\nx\n", b"--- {a: 1}\n", b"--- [\n", b"---\n...\n---\n", b"...\n", b"...\n\n# end\n", b"--- *nope\n", b"--- }\n"])
        elif c < 0.35:
            t = t[:r.randint(0, len(t))]
        s.op("LOAD", ty, 1, s.doc(t), 0 if r.random() < 0.85 else r.randint(1, 6), fileflag(r))
        s.op("SAVE", 1, 0, 0)
        s.op("COPY", 1, 2)
        s.op("FREE", 1)
        s.op("FREE", 2)
    return s


@profile("C27", "oom oomheap leak heap heaperr out err", 450, 6000)
def c27(r, sid, tier):
    """libyaml's own failures, at each call of it in turn."""
    g = Gen(r, **dict(dict(alias=0.3, opt=0.4, default=0.4, iuk=0.3, ignore=0.5, bad=0.01, sstyle=0.1, style=0.2), **spice(r)))
    s = g.scenario(sid)
    n = 400 if tier == "thorough" else 120
    long = r.random() < 0.12
    if long:       # more text than libyaml buffers: some is handed on before the failure
        i = s.ty(mktype("STRING", 1, dict(ptr=True)))
        ty = s.ty(mktype("SEQUENCE", 8, dict(ptr=True), ent=i))
        docs = [s.doc(b"".join(b"- %s\n" % (b"pqrst" * r.choice([100, 120, 300])) for _ in range(r.randint(17, 50)))) for _ in range(2)]
    else:
        ty = g.root()
        docs = many(r, g, ty, 2)
    for i, d in enumerate(docs):
        s.op("LOAD", ty, 1, d, 0, 0)
        s.op("OOML", ty, d, r.choice([2, 2, 3]), n, r.choice([1, 1, 1, 2]), int(r.random() < 0.3))
        s.op("SAVE", 1, 0, 0)
        s.op("OOMS", 1, i ^ (r.random() < 0.3), r.choice([2, 2, 3]), n, 1 if not long else r.choice([3, 7]))
        s.op("SAVE", 1, 0, 0)
        s.op("LOAD", ty, 2, d, 0, 0)
        s.op("FREE", 1)
        s.op("FREE", 2)
    return s
