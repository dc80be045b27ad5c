"""Small domains, all of each: every combination of wrong parameters, every
style in every context, every text of a few tokens, every length a file may be
cut at, every byte as a value, every letter against every other, every size."""
import itertools, random
from gen import *
from mc import M
from model import *

ALL = {}


def exhaust(pid):
    def deco(f):
        ALL[pid] = f
        return f
    return deco


def base(name, **cfg):
    m = M(name, **cfg)
    m.s.id = name
    return m


@exhaust("C19")
def params(sid, deep):
    """Every combination of wrong parameters, for every function, on top-level values of several types."""
    out = []
    for kind in ("seq", "map", "fixed", "string"):
        m = base("%s-%s" % (sid, kind))
        u = m.ty("UINT", 2)
        ty = dict(seq=lambda: m.seq(u, dict(ptr=True)), map=lambda: m.map([(b"a", u)], dict(ptr=True)), fixed=lambda: m.seq(u, dict(ptr=True), fixed=3),
                  string=lambda: m.ty("STRING", 1, dict(ptr=True)))[kind]()
        bare = m.ty("UINT", 4)
        s = m.s
        s.op("LOAD", ty, 1, s.doc(dict(seq=b"[1, 2, 3]", map=b"a: 1", fixed=b"[1, 2, 3]", string=b"text")[kind]), 0, 0)
        for api in range(6):
            for bits in range(32):
                if api == 5:
                    if bits & 24 == 0 and bits:
                        s.op("PARAM", api, bits, ty, 1)
                    continue
                for more in ((0, 64) if api in (1, 4) else (0, 32) if api == 2 else (0,)):
                    if bits | more:
                        s.op("PARAM", api, bits | more, ty, 1)
                if api < 2:
                    s.op("PARAM", api, bits, bare, -1)
        s.op("PARAM", 5, 16, ty, -1)
        s.op("SAVE", 1, 0, 0)
        s.op("COPY", 1, 2)
        s.op("FREE", 1)
        s.op("FREE", 2)
        out.append(s)
    return out


STY = [{}, dict(blk=True), dict(flw=True), dict(blk=True, flw=True)]
SCALAR = ("plain", "fold", "lit", "sq", "dq")


@exhaust("C18")
def styles(sid, deep):
    """Every style of collection within every other, under every configuration; every style of scalar in every context."""
    out = []
    for c in range(8):
        cfg = dict(block=bool(c & 1), flow=bool(c & 2), delim=bool(c & 4))
        m = base("%s-c%d" % (sid, c), **cfg)
        s = m.s
        u = m.ty("UINT", 1)
        doc = s.doc(b"{m: {x: 1, s: [2]}, q: [{x: 3, s: []}, {x: 4, s: [5, 6]}], e: []}")
        sdoc = s.doc(b"[[2], [3]]")
        for a, b, d in itertools.product(range(4), repeat=3):
            inner = m.seq(u, dict(STY[d], ptr=True))
            mp = m.map([(b"x", u), (b"s", inner)], dict(STY[b]))
            root = m.map([(b"m", mp), (b"q", m.seq(m.map([(b"x", u), (b"s", m.seq(u, dict(STY[a], ptr=True)))], dict(STY[d], ptr=True)), dict(STY[b], ptr=True))),
                          (b"e", m.seq(u, dict(STY[d], ptr=True)))], dict(STY[a], ptr=True))
            s.op("LOAD", root, 1, doc, 0, 0)
            s.op("SAVE", 1, 0, 0)
            s.op("FREE", 1)
        for a, b in itertools.product(range(4), repeat=2):
            root = m.seq(m.seq(u, dict(STY[a]), fixed=1), dict(STY[b], ptr=True))
            s.op("LOAD", root, 1, sdoc, 0, 0)
            s.op("SAVE", 1, 0, 0)
            s.op("FREE", 1)
            root = m.map([(b"f", m.ty("FLAGS", 1, dict(STY[a]), strs=[(b"p", 1), (b"q", 2)])), (b"b", m.ty("BITFIELD", 1, dict(STY[a]), bits=[(b"p", 0, 3), (b"q", 3, 3)]))], dict(STY[b], ptr=True))
            s.op("LOAD", root, 1, s.doc(b"{f: [p, q], b: {p: 1, q: 2}}"), 0, 0)
            s.op("SAVE", 1, 0, 0)
            s.op("FREE", 1)
        out.append(s)
    for c in (0, 1, 2, 3):
        m = base("%s-s%d" % (sid, c), block=bool(c & 1), flow=bool(c & 2))
        s = m.s
        doc = s.doc(b"{t: word, i: -5, u: 5, e: one, g: [one, 4], b: {p: 1}, o: true, q: [w1, w2], n: }")
        for bits in range(32):
            fl = {k: True for i, k in enumerate(SCALAR) if bits >> i & 1}
            fs = [(b"t", m.ty("STRING", 1, dict(fl, ptr=True))), (b"i", m.ty("INT", 1, fl)), (b"u", m.ty("UINT", 1, fl)), (b"e", m.ty("ENUM", 1, fl, strs=[(b"one", 1)])),
                  (b"g", m.ty("FLAGS", 1, fl, strs=[(b"one", 1)])), (b"b", m.ty("BITFIELD", 1, fl, bits=[(b"p", 0, 3)])), (b"o", m.ty("BOOL", 1, fl)),
                  (b"q", m.seq(m.ty("STRING", 4, fl, smax=3), dict(fl, ptr=True))), (b"n", m.ty("STRING", 1, dict(fl, ptr=True, nls=True)))]
            root = m.map(fs, dict(fl, ptr=True))
            s.op("LOAD", root, 1, doc, 0, 0)
            s.op("SAVE", 1, 0, 0)
            s.op("FREE", 1)
            if bits in (0, 1, 2, 4, 8, 16):
                root = m.ty("STRING", 1, dict(fl, ptr=True))
                s.op("LOAD", root, 1, s.doc(b"word"), 0, 0)
                s.op("SAVE", 1, 0, 0)
                s.op("FREE", 1)
        out.append(s)
    return out


@exhaust("C22")
def cuts(sid, deep):
    """A file that can take no more than so many bytes, for every number up to its length and beyond."""
    out = []
    texts = [(b"[1, 22, 333]", "seq"), (b"{a: 7, b: [ab, cd, \"\"], c: \"x y\"}", "map"), (b"word", "str")]
    for cfg in (dict(), dict(delim=True, flow=True)):
        for t, kind in texts:
            m = base("%s-%s%d" % (sid, kind, len(cfg)), **cfg)
            s = m.s
            st = m.ty("STRING", 1, dict(ptr=True))
            ty = dict(seq=lambda: m.seq(m.ty("UINT", 2), dict(ptr=True)), str=lambda: st,
                      map=lambda: m.map([(b"a", m.ty("INT", 1)), (b"b", m.seq(st, dict(ptr=True))), (b"c", st)], dict(ptr=True)))[kind]()
            d = s.doc(t)
            s.op("LOAD", ty, 1, d, 0, 0)
            for n in range(70 if kind == "map" else 34):
                s.op("SAVE", 1, 3, n)
            for n in range(1, 6):
                s.op("SAVE", 1, 3, -n)
            s.op("SAVE", 1, 1, 1)
            s.op("SAVE", 1, 2, 0)
            s.op("SAVE", 1, 4, 0)
            s.op("FREE", 1)
            # documents cut short, from a file and from memory
            for n in range(len(t) + 1):
                d = s.doc(t[:n])
                for f in (0, 1):
                    s.op("LOAD", ty, 1, d, 0, f)
                    s.op("FREE", 1)
            out.append(s)
    return out


TOKENS = [b"{", b"}", b"[", b"]", b": ", b", ", b"\n- ", b"? ", b"&a ", b"*a ", b"a", b'"', b"!t ", b"\n--- ", b"\n... ", b"b: ", b"\n"]


@exhaust("C24")
def phrases(sid, deep):
    """Every text of a few tokens, read with a schema that takes nearly anything and with one that does not."""
    out = []
    texts = [b"".join(p) for n in range(0, 5 if deep else 4) for p in itertools.product(TOKENS if n < 4 else TOKENS[:14], repeat=n)]
    texts = sorted(set(texts))
    per = 60
    for k in range(0, len(texts), per):
        m = base("%s-%d" % (sid, k // per), iuk=True)
        s = m.s
        if k // per % 3 == 0:
            ty = m.map([(b"a", m.seq(m.ty("STRING", 1, dict(ptr=True, nul=True)), dict(ptr=True, nul=True, opt=True)))], dict(ptr=True))
        elif k // per % 3 == 1:
            ty = m.seq(m.ty("STRING", 1, dict(ptr=True, nul=True)), dict(ptr=True, nul=True))
        else:
            d = m.ty("MAPPING", 0, dict(ptr=True))
            m.g.set_fields(d, [m.ref(d, opt=True, nul=True), m.ty("IGNORE", 0, dict(opt=True))], [b"a", b"b"])
            ty = d
        for t in texts[k:k + per]:
            s.op("LOAD", ty, 1, s.doc(t), 0, 0)
            s.op("FREE", 1)
        out.append(s)
    return out


def letters(deep):
    """Letters, and what is near them."""
    r = list(range(0x21, 0x7f)) + list(range(0xa1, 0x250)) + [0x345, 0x370, 0x371, 0x386, 0x3ac, 0x391, 0x3b1, 0x410, 0x430, 0x1e00, 0x1e01, 0x1e9e, 0x212a, 0x212b, 0x2160, 0x2170,
                                                           0x2c65, 0x2c66, 0xff21, 0xff41, 0x10400, 0x10428]
    r += list(range(0x250, 0x2b0))
    return r


@exhaust("C17")
def alphabet(sid, deep):
    """Every letter that has a case and many that have not, each looked for among all others, both ways round."""
    out = []
    cs = [c for c in letters(deep)]
    names = [chr(c).encode() for c in cs]
    pieces = 6
    for up in (0, 1):
        order = list(reversed(names)) if up else names
        for k in range(pieces):
            m = base("%s-%d-%d" % (sid, up, k), ci=True)
            s = m.s
            e = m.ty("ENUM", 2, dict(strict=True), strs=[(n, i) for i, n in enumerate(order)])
            q = m.seq(e, dict(ptr=True))
            mine = names[k::pieces]
            for j in range(0, len(mine), 30):
                s.op("LOAD", q, 1, s.doc(b"[" + b", ".join(dquote(n, False) for n in mine[j:j + 30]) + b"]"), 0, 0)
                s.op("FREE", 1)
            out.append(s)
    return out


@exhaust("C06")
def octets(sid, deep):
    """Every value of a byte of flags and of a byte of bits, saved and loaded."""
    out = []
    sets = [[(b"a", 1), (b"b", 2), (b"c", 4), (b"d", 128)], [(b"ab", 3), (b"a", 1), (b"none", 0), (b"b", 2), (b"hi", 0xf0)], [(b"abc", 7), (b"bc", 6), (b"all", 255)]]
    bits = [[(b"x", 0, 3), (b"y", 3, 4), (b"z", 7, 1)], [(b"z", 7, 1), (b"x", 1, 2)], [(b"all", 0, 8), (b"lo", 0, 4)]]
    for k in range(6):
        m = base("%s-%d" % (sid, k))
        s = m.s
        tys = [m.ty("FLAGS", 1, dict(ptr=True), strs=sets[k]), m.ty("FLAGS", 1, dict(ptr=True, strict=True), strs=sets[k])] if k < 3 else [m.ty("BITFIELD", 1, dict(ptr=True), bits=bits[k - 3])]
        for ty in tys:
            for v in range(256):
                s.op("BUILD", ty, 1, 0, blocks=[(bytes([v]), [])])
                s.op("SAVE", 1, 0, 0)
                s.op("RELOAD", ty, 2, 0, 0)
                s.op("FREE", 1)
                s.op("FREE", 2)
        out.append(s)
    return out


@exhaust("C05")
def integers(sid, deep):
    """Every number about what a byte holds, each way of writing it."""
    out = []
    forms = [lambda v: b"%d" % v, lambda v: (b"-" if v < 0 else b"") + b"0x%x" % abs(v), lambda v: (b"-" if v < 0 else b"") + b"0%o" % abs(v)]
    for k, f in enumerate(forms):
        m = base("%s-%d" % (sid, k))
        s = m.s
        tys = [m.ty("INT", 1, dict(ptr=True)), m.ty("UINT", 1, dict(ptr=True)), m.ty("INT", 2, dict(ptr=True), min=-100 & (1 << 64) - 1, max=9), m.ty("UINT", 1, dict(ptr=True), min=3, max=200),
               m.ty("ENUM", 1, dict(ptr=True), strs=[(b"0x10", 3), (b"12", -1 & (1 << 64) - 1), (b"017", 7)])]
        for v in range(-260, 261):
            d = s.doc(f(v))
            for ty in tys:
                if abs(v) > 135 and ty == tys[0] or (v < -3 or v in range(4, 199)) and v % 7 and ty in tys[2:4]:
                    continue
                s.op("LOAD", ty, 1, d, 0, 0)
                s.op("FREE", 1)
        out.append(s)
    return out


@exhaust("C14")
def values(sid, deep):
    """Every value of a byte, of each type, saved."""
    out = []
    neg = -5 & (1 << 64) - 1
    for k, kw in enumerate([dict(t="INT"), dict(t="UINT"), dict(t="BOOL"), dict(t="ENUM", strs=[(b"one", 1), (b"m", neg), (b"big", 200), (b"uno", 1)]),
                            dict(t="ENUM", fl=dict(strict=True), strs=[(b"x%d" % i, i) for i in range(0, 120, 3)]), dict(t="FLAGS", strs=[(b"a", 1), (b"hi", 0xc0)])]):
        m = base("%s-%d" % (sid, k))
        s = m.s
        ty = m.ty(kw.pop("t"), 1, dict(kw.pop("fl", {}), ptr=True), **kw)
        for v in range(256):
            s.op("BUILD", ty, 1, 0, blocks=[(bytes([v]), [])])
            s.op("SAVE", 1, 0, 0)
            s.op("FREE", 1)
        out.append(s)
    # every character a string may begin, hold or end with
    m = base("%s-c" % sid)
    s = m.s
    st = m.ty("STRING", 8, {}, smax=7)
    q = m.seq(st, dict(ptr=True))
    for lo in range(1, 256, 15):
        cs = [c.encode() for c in map(chr, range(lo, min(lo + 15, 256)))] + [b"", b"~", b"null"]
        for pat in (b"%s", b"a%s", b"%sa", b"a%sb", b"%s ", b" %s"):
            ws = [pat % c for c in cs]
            ws = [w for w in ws if len(w) < 8]
            s.op("BUILD", q, 1, len(ws), blocks=[(b"".join(w + bytes(8 - len(w)) for w in ws), [])])
            s.op("SAVE", 1, 0, 0)
            s.op("RELOAD", q, 2, 0, 0)
            s.op("FREE", 1)
            s.op("FREE", 2)
    out.append(s)
    return out


@exhaust("C23")
def counts(sid, deep):
    """Every count, depth and length up to a bound."""
    out = []
    m = base("%s-q" % sid)
    s = m.s
    q = m.seq(m.ty("UINT", 3), dict(ptr=True))
    p = m.seq(m.ty("STRING", 1, dict(ptr=True)), dict(ptr=True))
    h = m.map([(b"q", q), (b"p", p)], dict(ptr=True))
    n = 300 if deep else 70
    for i in range(0, n):
        s.op("LOAD", h, 1, s.doc(b"{q: [" + b", ".join(b"%d" % (x * 77) for x in range(i)) + b"], p: [" + b", ".join(b"s%d" % x for x in range(i % 40)) + b"]}"), 0, 0)
        s.op("COPY", 1, 2)
        s.op("SAVE", 2, 0, 0)
        s.op("FREE", 1)
        s.op("FREE", 2)
    out.append(s)
    import profiles
    for k in range(3):
        g = Gen(random.Random(k))
        s = g.scenario("%s-d%d" % (sid, k))
        class Pick:
            def choice(self, l):
                return l[k]
        ty, text = profiles.chain(Pick(), g)
        for d in range(0, 70 if deep else 45):
            s.op("LOAD", ty, 1, s.doc(text(d)), 0, 0)
            s.op("COPY", 1, 2)
            s.op("SAVE", 2, 0, 0)
            s.op("FREE", 2)
            s.op("FREE", 1)
            s.op("LOAD", ty, 1, s.doc(text(d, b"{v: x}")), 0, 0)
            s.op("FREE", 1)
        out.append(s)
    m = base("%s-s" % sid)
    s = m.s
    st = m.ty("STRING", 1, dict(ptr=True))
    it = m.ty("STRING", 41, {}, smax=40)
    h = m.map([(b"a", st), (b"b", it)], dict(ptr=True))
    for i in range(0, 300 if deep else 140):
        s.op("LOAD", h, 1, s.doc(b"{a: \"%s\", b: \"%s\"}" % (b"x" * i, b"y" * (i % 42))), 0, i % 5 == 0)
        s.op("COPY", 1, 2)
        s.op("SAVE", 2, 0, 0)
        s.op("FREE", 1)
        s.op("FREE", 2)
    out.append(s)
    # every number of fields, the last of them missing, then the first
    for i in list(range(1, 70)) if deep else [1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 34, 63, 64, 65, 66]:
        m = base("%s-f%d" % (sid, i))
        s = m.s
        u = m.ty("UINT", 1)
        h = m.map([(b"k%d" % x, u) for x in range(i)], dict(ptr=True))
        for gone in (None, i - 1, 0, i // 2):
            s.op("LOAD", h, 1, s.doc(b"{" + b", ".join(b"k%d: %d" % (x, x) for x in range(i) if x != gone) + b"}"), 0, 0)
            s.op("COPY", 1, 2)
            s.op("SAVE", 1, 0, 0)
            s.op("FREE", 1)
            s.op("FREE", 2)
        out.append(s)
    return out


RICH = [b"{a: 1, b: [x, \"y z\", x], m: {k: on, f: [p, q]}, z: -2}\n", b"a: 7\nb:\n- one\n- &t two\n- *t \nm:\n  k: off\n  f: []\n", b"{b: [s], a: 2, q: {x: [1, 2], y: {}}, m: {k: on, f: [4]}}\n"]


def rich(m):
    st = m.ty("STRING", 1, dict(ptr=True), cb=True)
    inner = m.map([(b"k", m.ty("BOOL", 1)), (b"f", m.ty("FLAGS", 1, {}, strs=[(b"p", 1), (b"q", 2)]))], dict(ptr=True))
    dq = m.seq(m.ty("STRING", 1, dict(ptr=True)), dict(ptr=True, opt=True), mc=2)
    m.s[dq]["mb"] = m.g.make_static(dq)
    return m.map([(b"a", m.ty("UINT", 2)), (b"b", m.seq(st, dict(ptr=True), lo=1)), (b"m", inner), (b"z", m.ty("INT", 1, dict(opt=True), miss=-3 & (1 << 64) - 1)), (b"d", dq)], dict(ptr=True))


@exhaust("C01")
def breaks(sid, deep):
    """Documents broken off, or with a byte lost or put for another, at each place; each callback refused."""
    out = []
    for i, t in enumerate(RICH):
        m = base("%s-%d" % (sid, i), iuk=True)
        s = m.s
        ty = rich(m)
        good = s.doc(t)
        for k in range(6):
            s.op("LOAD", ty, 1, good, k, 0)
            s.op("FREE", 1)
        for n in range(len(t)):
            for u in (t[:n], t[:n] + t[n + 1:], t[:n] + b"}" + t[n + 1:], t[:n] + b"\x01" + t[n:]) + ((t[:n] + b"[" + t[n:], t[:n] + b": " + t[n:]) if deep else ()):
                s.op("LOAD", ty, 1, s.doc(u), 0, int(n % 9 == 0))
                s.op("FREE", 1)
        out.append(s)
    return out


@exhaust("C20")
def where(sid, deep):
    """The same, for what is said of where it was."""
    return breaks(sid, deep)


@exhaust("C13")
def limits(sid, deep):
    """Every pair of limits and every count of entries, for each way a sequence may be held."""
    out = []
    u = None
    for lo, hi in itertools.product(range(5), range(5)):
        m = base("%s-%d-%d" % (sid, lo, hi))
        s = m.s
        u = m.ty("UINT", 2)
        st = m.ty("STRING", 1, dict(ptr=True))
        tys = []
        if hi:
            tys += [(m.seq(u, dict(ptr=True), lo=lo, hi=hi), b"[%s]"), (m.map([(b"q", m.seq(u, dict(ptr=True), lo=lo, hi=hi))], dict(ptr=True)), b"{q: [%s]}"),
                    (m.map([(b"q", m.seq(u, {}, lo=lo, hi=hi))], dict(ptr=True)), b"{q: [%s]}")]
        f = m.ty("SEQUENCE_FIXED", 8, {}, ent=st, smin=lo, smax=hi)
        if hi and (lo == hi or True):
            tys.append((m.map([(b"q", f)], dict(ptr=True)), b"{q: [%s]}"))
        if lo == hi and hi:
            tys += [(m.seq(m.seq(u, {}, fixed=hi), dict(ptr=True)), b"[[%s]]"), (m.ty("SEQUENCE_FIXED", 8, dict(ptr=True), ent=st, smin=lo, smax=hi), b"[%s]")]
        for ty, t in tys:
            for n in range(6):
                s.op("LOAD", ty, 1, s.doc(t % b", ".join(b"%d" % (x + 1) for x in range(n))), 0, 0)
                s.op("FREE", 1)
        out.append(s)
    return out


NULLS = [b"", b"~", b"null", b"Null", b"NULL", b"nULl", b"nul", b"nulls", b'"~"', b"'null'", b'""', b"[]", b"{}"]


@exhaust("C09")
def nothings(sid, deep):
    """Every spelling of nothing, and what looks like one, for each type, allowed or not, in each place."""
    out = []
    for k, (fl, place) in enumerate(itertools.product([{}, dict(nul=True), dict(nls=True), dict(opt=True), dict(opt=True, nul=True), dict(opt=True, nls=True)], ["field", "entry", "root"])):
        if place != "field" and "opt" in fl:
            continue
        m = base("%s-%d" % (sid, k))
        s = m.s
        u = m.ty("UINT", 1)
        fl = dict(fl, ptr=True)
        tys = [m.ty("UINT", 1, fl), m.ty("INT", 1, fl), m.ty("BOOL", 1, fl), m.ty("ENUM", 1, fl, strs=[(b"null", 1), (b"", 2)]), m.ty("FLOAT", 8, fl), m.ty("STRING", 1, fl),
               m.ty("FLAGS", 1, fl, strs=[(b"null", 1)]), m.ty("BITFIELD", 1, fl, bits=[(b"x", 0, 1)]), m.map([(b"x", m.ty("UINT", 1, dict(opt=True)))], fl), m.seq(u, fl), m.seq(u, fl, fixed=1)]
        for ty in tys:
            if place == "entry" and s[ty]["t"] == "SEQUENCE":
                continue
            root, pat = dict(field=lambda: (m.map([(b"f", ty), (b"g", u)], dict(ptr=True)), b"f: %s\ng: 3\n"), entry=lambda: (m.seq(ty, dict(ptr=True)), b"- %s\n- %s\n"),
                             root=lambda: (ty, b"%s\n"))[place]()
            for w in NULLS:
                t = pat.replace(b"%s", w)
                s.op("LOAD", root, 1, s.doc(t), 0, 0)
                s.op("SAVE", 1, 0, 0)
                s.op("COPY", 1, 2)
                s.op("FREE", 2)
                s.op("FREE", 1)
        out.append(s)
    return out


@exhaust("C08")
def absent(sid, deep):
    """A default of each type and size, in place and by pointer, with the field there and not, its own or not to be had."""
    out = []
    for k, ptr in enumerate((False, True)):
        m = base("%s-%d" % (sid, k))
        s = m.s
        s.ro = True
        fl = dict(opt=True, ptr=ptr)
        u = m.ty("UINT", 2)
        cases = []
        for z in range(1, 9):
            top = 1 << 8 * z - 1
            for v in (1, 0, -1, top - 1, -top, top, -top - 1, 0x0102030405060708 & (1 << 8 * z) - 1):
                if -1 << 63 <= v < 1 << 63:
                    cases.append((m.ty("INT", z, fl, miss=v & (1 << 64) - 1), b"5"))
                    cases.append((m.ty("ENUM", z, fl, strs=[(b"w", v & (1 << 64) - 1)], miss=v & (1 << 64) - 1), b"w"))
            for v in (1, 0, 2 * top - 1, 2 * top, top, 0x0807060504030201 & (1 << 8 * z) - 1):
                if v < 1 << 64:
                    cases.append((m.ty("UINT", z, fl, miss=v), b"5"))
                    cases.append((m.ty("FLAGS", z, fl, strs=[(b"w", 1)], miss=v), b"[w]"))
                    cases.append((m.ty("BITFIELD", z, fl, bits=[(b"w", 0, 1)], miss=v), b"{w: 1}"))
        for z in (1, 2, 4, 8):
            for v in (0, 1):
                cases.append((m.ty("BOOL", z, fl, miss=v), b"no"))
        for z in (4, 8):
            for v in (0.0, 1.5, -3.0, 1e30):
                cases.append((m.ty("FLOAT", z, fl, fm=v), b"2.5"))
        for sm in (None, b"", b"x", b"seven c"):
            cases.append((m.ty("STRING", 8, fl, smax=7, sm=sm), b"abc"))
        for n in (1, 2, 3):
            if ptr:
                q = m.seq(u, fl, mc=n)
                s[q]["mb"] = m.g.make_static(q)
                cases.append((q, b"[4, 5]"))
            e = m.seq(m.ty("STRING", 1, dict(ptr=True)), fl, fixed=n)
            s[e]["mb"] = m.g.make_static(e)
            cases.append((e, b"[" + b", ".join([b"s"] * n) + b"]"))
        mp = m.map([(b"x", u), (b"y", m.ty("STRING", 1, dict(ptr=True)))], fl)
        s[mp]["mb"] = m.g.make_static(mp)
        cases.append((mp, b"{x: 1, y: q}"))
        none, other = s.doc(b"{g: 1}"), s.doc(b"{g: x}")
        for ty, t in cases:
            root = m.map([(b"f", ty), (b"g", u)], dict(ptr=True))
            for d in (none, s.doc(b"{f: " + t + b", g: 2}"), other):
                s.op("LOAD", root, 1, d, 0, 0)
                if d == none and ty % 4 == 0:
                    s.op("COPY", 1, 2)
                    s.op("FREE", 2)
                s.op("FREE", 1)
        out.append(s)
    return out


@exhaust("C11")
def rubbish(sid, deep):
    """Every text of a few tokens where it is ignored, with what matters after it."""
    out = []
    texts = sorted({b"".join(p) for n in range(0, 4 if deep else 3) for p in itertools.product(TOKENS, repeat=n)} | {b"[%s%s]" % p for p in itertools.product(TOKENS, repeat=2)} | {b"{a: %s%s}" % p for p in itertools.product(TOKENS, repeat=2)})
    for k in range(0, len(texts), 60):
        m = base("%s-%d" % (sid, k // 60), iuk=k % 180 != 0)
        s = m.s
        ty = m.map([(b"a", m.ty("UINT", 1)), (b"g", m.ty("IGNORE", 0, dict(opt=True))), (b"s", m.ty("STRING", 1, dict(ptr=True, opt=True, nul=True)))], dict(ptr=True))
        for j, t in enumerate(texts[k:k + 60]):
            s.op("LOAD", ty, 1, s.doc((b"g: %s\na: 5\ns: x\n" if j % 2 else b"{zz: %s, g: *a , a: 5}\n" if j % 4 else b"{zz: %s, a: 5}\n") % t), 0, 0)
            s.op("FREE", 1)
        out.append(s)
    return out


@exhaust("C15")
def again(sid, deep):
    """Every value of a byte, of each type, and every character, saved and loaded as it was."""
    out = values(sid, deep) + octets(sid, deep)
    for i, s in enumerate(out):
        ops = []
        s.id = "%s-%d" % (sid, i)
        for o in s.ops:
            if o["k"] == "RELOAD":
                o["iso"] = 1
            if o["k"] == "FREE" and o["a"] == [1] and ops[-1]["k"] == "SAVE":
                ops.append(dict(k="RELOAD", a=[ops[-2]["a"][0], 2, 0, 0], blocks=[], iso=1))
                ops.append(dict(k="FREE", a=[2], blocks=[]))
            ops.append(o)
        s.ops = ops
    return out


def cut(s, per=90):
    """Scenarios of fewer calls, cut where the client holds nothing."""
    parts, part, full = [], [], set()
    for o in s.ops:
        k, a = o["k"], o["a"]
        part.append(o)
        if k in ("LOAD", "RELOAD", "COPY", "BUILD"):
            full.add(a[1])
        elif k == "FREE":
            full.discard(a[0])
        if len(part) >= per and not full:
            parts.append(part)
            part = []
    parts += [part] if part else []
    out = []
    for i, part in enumerate(parts):
        c = Scenario.from_json(dict(s.to_json(), ops=[], docs=[]))
        c.id = "%s.%d" % (s.id, i)
        docs = {}
        for o in part:
            a = list(o["a"])
            w = {"LOAD": 2, "OOML": 1}.get(o["k"])
            if w is not None:
                if a[w] not in docs:
                    docs[a[w]] = c.doc(s.docs[a[w]])
                a[w] = docs[a[w]]
            c.ops.append(dict(o, a=a))
        out.append(c)
    return out


def run(pid, tier):
    f = ALL.get(pid)
    return [c for s in f("%s-all" % pid, tier == "thorough") for c in cut(s)] if f else []


if __name__ == "__main__":
    import sys
    for pid in sys.argv[1:] or sorted(ALL):
        ss = run(pid, "quick")
        print(pid, len(ss), sum(len(s.ops) for s in ss))
