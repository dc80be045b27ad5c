"""Bounded model checking of the specification, and the behaviours it has given
back as scenarios for the real library."""
import json, os, random, re
import model, runner
from model import *
from gen import Gen, dquote, PLAIN

WORDLIKE = re.compile(rb"^[A-Za-z0-9_+~.-]+$")


class M:
    """A scenario for the model checker: a schema and the words its documents may be made of."""
    def __init__(self, name, **cfg):
        self.g = Gen(random.Random(name), gaps=0.4, weird=0)
        self.s = self.g.scenario(name)
        self.s.cfg = dict({k: False for k in CFG}, **cfg)
        self.s.level, self.s.haslog, self.s.ro, self.s.ctxs = 0, True, False, 0
        self.name = name
        self.p = dict(deep=2, errs=False, oddkeys=False, keys=[], vals=[], als=[], ancs=[b""], rejs=[0], buds=[-1], cbuds=[-1],
                      do=["save", "copy"])

    def ty(self, t, size, fl=None, **kw):
        return self.s.ty(mktype(t, size, fl, **kw))

    def seq(self, ent, fl=None, fixed=None, lo=0, hi=UNLIMITED, **kw):
        sz = self.g.esize(ent)
        if fixed:
            return self.ty("SEQUENCE_FIXED", sz, fl, ent=ent, smin=fixed, smax=fixed, **kw)
        return self.ty("SEQUENCE", sz, fl, ent=ent, smin=lo, smax=hi, **kw)

    def map(self, fields, fl=None, csz=None, **kw):
        i = self.ty("MAPPING", 0, fl, **kw)
        self.g.set_fields(i, [t for _, t in fields], [k for k, _ in fields])
        for f in self.s[i]["fields"]:
            if csz and f["csz"]:
                f["csz"] = min(f["csz"], csz)
        return i

    def ref(self, base, **fl):
        """A pointer to the mapping base, within base itself."""
        return self.s.ty(dict(mktype("MAPPING", 0, dict(fl, ptr=True)), fields=None, alias_of=base))

    def done(self, root, **kw):
        self.root = root
        self.p.update(kw)
        return self

    def spec(self):
        def word(w):
            v, a = w if isinstance(w, tuple) else (w, b"")
            return dict(v=list(v), a=list(a), f=float_env(v))
        d = self.s.spec()
        p = self.p
        d.update(root=self.root, max=p["max"], deep=p["deep"], errs=p["errs"], oddkeys=p["oddkeys"], rejs=p["rejs"], buds=p["buds"], cbuds=p["cbuds"], do=p["do"],
                 keys=[word(w) for w in p["keys"]], vals=[word(w) for w in p["vals"]], als=[list(a) for a in p["als"]], ancs=[list(a) for a in p["ancs"]])
        d["logs"] = True
        return d


MODELS = {}


def model_(f):
    MODELS[f.__name__] = f
    return f


@model_
def fields(deep):
    """A mapping of required and optional fields, in any order, number and spelling."""
    m = M("fields")
    return m.done(m.map([(b"a", m.ty("UINT", 1)), (b"b", m.ty("INT", 2, dict(opt=True), miss=-2 & (1 << 64) - 1)), (b"c", m.ty("STRING", 1, dict(opt=True, ptr=True), cb=True))],
                        dict(ptr=True), cb=True), keys=[b"a", b"b", b"c", b"z"], vals=[b"1", b"300"], deep=2, rejs=[0, 1, 2])


@model_
def nested(deep):
    """Mappings within mappings, in place and by pointer, with a default."""
    m = M("nested")
    x = m.ty("UINT", 2)
    inner = m.map([(b"x", x)], {})
    outer = m.map([(b"x", x)], dict(ptr=True, opt=True))
    m.s[outer]["mb"] = m.g.make_static(outer)
    return m.done(m.map([(b"m", inner), (b"p", outer), (b"o", m.map([(b"x", x)], dict(ptr=True, opt=True, nul=True)))], dict(ptr=True)),
                  keys=[b"m", b"p", b"o", b"x"], vals=[b"7", b""], deep=2)


@model_
def entries(deep):
    """Sequences: their limits, counts and callbacks."""
    m = M("entries")
    return m.done(m.seq(m.ty("UINT", 1, cb=True), dict(ptr=True), lo=1, hi=3, cb=True), vals=[b"1", b"300", b"x"], deep=2, rejs=[0, 1, 2, 3, 4], oddkeys=False, keys=[b"k"])


@model_
def lists(deep):
    """Sequences as fields, in place and by pointer, of mappings and numbers; fixed ones."""
    m = M("lists")
    item = m.map([(b"v", m.ty("INT", 1))], {})
    return m.done(m.map([(b"s", m.seq(item, dict(ptr=True), hi=2)), (b"f", m.seq(m.ty("UINT", 2), dict(opt=True), fixed=2)),
                         (b"i", m.seq(m.ty("UINT", 1), dict(opt=True), hi=2))], dict(ptr=True)),
                  keys=[b"s", b"f", b"i", b"v"], vals=[b"5"], deep=3)


@model_
def within(deep):
    """Sequences within sequences: fixed ones may be, others not."""
    m = M("within")
    u = m.ty("UINT", 1)
    inner = m.seq(u, {}, fixed=2)
    return m.done(m.seq(inner, dict(ptr=True), hi=3), keys=[b"k"], vals=[b"1"], deep=2)


@model_
def barred(deep):
    m = M("barred")
    inner = m.seq(m.ty("UINT", 1), dict(ptr=True))
    return m.done(m.seq(inner, dict(ptr=True)), keys=[b"k"], vals=[b"1"], deep=3)


@model_
def uneven(deep):
    """A fixed sequence whose limits differ."""
    m = M("uneven")
    q = m.ty("SEQUENCE_FIXED", 1, {}, ent=m.ty("UINT", 1), smin=1, smax=2)
    return m.done(m.map([(b"q", q)], dict(ptr=True)), keys=[b"q"], vals=[b"1"], deep=2, do=[])


@model_
def fixedptr(deep):
    """A fixed sequence of pointers to strings, by pointer."""
    m = M("fixedptr")
    e = m.ty("STRING", 1, dict(ptr=True, nul=True))
    return m.done(m.seq(e, dict(ptr=True), fixed=2, cb=True), keys=[b"k"], vals=[b"", b"ab", b"~"], deep=2, rejs=[0, 1], buds=[-1, 0, 1, 2, 3, 4, 5], cbuds=[-1, 0, 1, 2, 3])


@model_
def union(deep):
    """Flags."""
    m = M("union")
    f = m.ty("FLAGS", 1, dict(), strs=[(b"ab", 3), (b"a", 1), (b"b", 2), (b"h", 128), (b"w", 256)], cb=True)
    return m.done(m.map([(b"f", f), (b"g", m.ty("FLAGS", 2, dict(opt=True, strict=True), strs=[(b"a", 1), (b"h", 32768)], miss=1))], dict(ptr=True)),
                  keys=[b"f", b"g"], vals=[b"a", b"b", b"ab", b"h", b"w", b"64", b"255", b"256"], deep=2, rejs=[0, 1])


@model_
def bits(deep):
    """A bit field."""
    m = M("bits")
    b = m.ty("BITFIELD", 2, dict(ptr=True), bits=[(b"x", 0, 3), (b"y", 7, 2), (b"z", 15, 1)], cb=True)
    return m.done(b, keys=[b"x", b"y", b"z", b"q"], vals=[b"0", b"1", b"3", b"7", b"8", b"k"], deep=2, rejs=[0, 1])


@model_
def badbits(deep):
    m = M("badbits")
    b = m.ty("BITFIELD", 1, dict(), bits=[(b"x", 0, 3), (b"y", 7, 2), (b"z", 3, 1)])
    return m.done(m.map([(b"b", b)], dict(ptr=True)), keys=[b"b", b"x", b"y", b"z"], vals=[b"1"], deep=2)


@model_
def words(deep):
    """Enumerations, booleans and limits."""
    m = M("words")
    e = m.ty("ENUM", 1, dict(strict=True), strs=[(b"one", 1), (b"two", 2), (b"uno", 1)], cb=True)
    f = m.ty("ENUM", 4, dict(opt=True), strs=[(b"one", 1), (b"neg", -1 & (1 << 64) - 1)])
    return m.done(m.map([(b"e", e), (b"f", f), (b"t", m.ty("BOOL", 1, dict(opt=True), miss=1)), (b"n", m.ty("INT", 1, dict(opt=True), min=-5 & (1 << 64) - 1, max=5))], dict(ptr=True)),
                  keys=[b"e", b"f", b"t", b"n"], vals=[b"one", b"uno", b"One", b"neg", b"-1", b"5", b"6", b"no", b"0x5", b""], deep=1, rejs=[0, 1])


@model_
def numbers(deep):
    """Every size of number at its ends."""
    m = M("numbers")
    fs = []
    vals = [b"0", b"-1"]
    for z in (1, 2, 3, 4, 5, 6, 7, 8):
        fs.append((b"i%d" % z, m.ty("INT", z, dict(opt=True))))
        fs.append((b"u%d" % z, m.ty("UINT", z, dict(opt=True))))
        for v in ((1 << 8 * z - 1) - 1, 1 << 8 * z - 1, -(1 << 8 * z - 1), -(1 << 8 * z - 1) - 1, (1 << 8 * z) - 1, 1 << 8 * z):
            vals.append(b"%d" % v)
    return m.done(m.map(fs, dict(ptr=True)), keys=[k for k, _ in fs], vals=vals, deep=1)


@model_
def sizes(deep):
    """Sizes no value can have."""
    m = M("sizes")
    fs = [(t.lower().encode() + b"%d" % z, m.ty(t, z, dict(opt=True), strs=[(b"a", 1)])) for t in ("INT", "UINT", "BOOL", "ENUM", "FLAGS", "FLOAT", "BITFIELD") for z in (0, 9, 3)
          if not (t in ("FLAGS",) and z == 9) and not (t == "BITFIELD" and z == 9) and not (t == "BOOL" and z == 0)]
    return m.done(m.map(fs, dict(ptr=True)), keys=[k for k, _ in fs], vals=[b"1", b"a"], deep=2, do=[])


@model_
def floats(deep):
    """Floating point numbers."""
    m = M("floats")
    fs = [(b"f", m.ty("FLOAT", 4, dict(opt=True), fm=1.5)), (b"d", m.ty("FLOAT", 8, dict(opt=True), cb=True)),
          (b"s", m.ty("FLOAT", 4, dict(opt=True, strict=True))), (b"t", m.ty("FLOAT", 8, dict(opt=True, strict=True, ptr=True)))]
    return m.done(m.map(fs, dict(ptr=True)), keys=[k for k, _ in fs], vals=[b"0", b"1", b"-2.5", b"1e39", b"-1e39", b"1e999", b"0x10", b"1e", b"inf", b"1.5x", b"", b"16777217"], deep=1, rejs=[0, 1])


@model_
def aliases(deep):
    """Anchors and aliases, wherever they may be."""
    m = M("aliases")
    q = m.seq(m.ty("UINT", 1), dict(ptr=True))
    r = m.seq(m.ty("UINT", 1), dict(ptr=True, opt=True))
    return m.done(m.map([(b"a", q), (b"b", r), (b"u", m.ty("UINT", 1, dict(opt=True)))], dict(ptr=True)),
                  keys=[b"a", b"b", (b"b", b"p"), b"u"], vals=[b"1", (b"2", b"p")], ancs=[b"", b"p"], als=[b"p"], deep=2)


@model_
def replays(deep):
    """Anchors within anchors, and their replay within others."""
    m = M("replays")
    item = m.map([(b"v", m.ty("UINT", 1)), (b"w", m.ty("UINT", 1, dict(opt=True)))], dict(ptr=True))
    return m.done(m.seq(item, dict(ptr=True)), keys=[b"v", b"w"], vals=[b"1", (b"2", b"q")], ancs=[b"", b"p", b"q"], als=[b"p", b"q"], deep=2)


@model_
def noalias(deep):
    m = M("noalias", noalias=True)
    return m.done(m.map([(b"a", m.ty("UINT", 1)), (b"b", m.ty("UINT", 1, dict(opt=True)))], dict(ptr=True)),
                  keys=[b"a", b"b"], vals=[b"1", (b"2", b"p")], ancs=[b"", b"p"], als=[b"p"], deep=2)


@model_
def ignored(deep):
    """What is ignored may be anything, and define anchors."""
    m = M("ignored", iuk=True, warn=True)
    return m.done(m.map([(b"a", m.ty("UINT", 1)), (b"g", m.ty("IGNORE", 0, dict(opt=True)))], dict(ptr=True), cb=True),
                  keys=[b"a", b"g", b"z"], vals=[b"1", (b"2", b"p")], ancs=[b"", b"p"], als=[b"p"], deep=3 if deep else 2, rejs=[0, 1])


@model_
def mustignore(deep):
    """An ignored field that is required."""
    m = M("mustignore", warn=True)
    return m.done(m.map([(b"g", m.ty("IGNORE", 0)), (b"a", m.ty("UINT", 1, dict(opt=True)))], dict(ptr=True)), keys=[b"g", b"a", b"z"], vals=[b"1", b""], deep=3)


@model_
def nulls(deep):
    """NULL, where it may be and where not, for each kind of value."""
    m = M("nulls")
    u = m.ty("UINT", 1)
    fs = [(b"a", m.ty("UINT", 1, dict(ptr=True, nul=True))), (b"b", m.ty("STRING", 1, dict(ptr=True, nls=True))), (b"c", m.ty("STRING", 1, dict(ptr=True, opt=True))),
          (b"d", m.seq(u, dict(ptr=True, nul=True, opt=True))), (b"e", m.map([(b"x", m.ty("UINT", 1, dict(opt=True)))], dict(ptr=True, nls=True, opt=True))),
          (b"f", m.ty("BOOL", 1, dict(opt=True)))]
    return m.done(m.map(fs, dict(ptr=True)), keys=[k for k, _ in fs], vals=[b"", b"~", b"null", b"NuLL", b"1"], deep=2)


@model_
def nullroot(deep):
    m = M("nullroot")
    return m.done(m.seq(m.ty("UINT", 1, dict(ptr=True, nls=True)), dict(ptr=True, nul=True)), keys=[b"k"], vals=[b"", b"~", b"Null", b"NULL", b"4"], deep=2)


@model_
def texts(deep):
    """Strings and their lengths."""
    m = M("texts")
    fs = [(b"p", m.ty("STRING", 1, dict(ptr=True), smin=1, smax=3)), (b"i", m.ty("STRING", 4, dict(opt=True), smax=3)), (b"n", m.ty("STRING", 3, dict(opt=True), smin=2, smax=1)),
          (b"d", m.ty("STRING", 1, dict(opt=True, ptr=True), sm=b"dft", cb=True))]
    return m.done(m.map(fs, dict(ptr=True)), keys=[k for k, _ in fs], vals=[b"", b"a", b"abc", b"abcd"], deep=1, rejs=[0, 1])


@model_
def defaults(deep):
    """Defaults of every type."""
    m = M("defaults")
    u = m.ty("UINT", 1)
    s = m.seq(u, dict(ptr=True, opt=True), mc=2)
    m.s[s]["mb"] = m.g.make_static(s)
    f = m.seq(m.ty("STRING", 1, dict(ptr=True)), dict(opt=True), fixed=2)
    m.s[f]["mb"] = m.g.make_static(f)
    mp = m.map([(b"x", u), (b"y", m.ty("STRING", 1, dict(ptr=True, opt=True)))], dict(opt=True))
    m.s[mp]["mb"] = m.g.make_static(mp)
    fs = [(b"a", m.ty("INT", 3, dict(opt=True), miss=-7 & (1 << 64) - 1)), (b"b", m.ty("UINT", 2, dict(opt=True, ptr=True), miss=9)), (b"c", s), (b"d", f), (b"e", mp),
          (b"g", m.ty("FLAGS", 1, dict(opt=True), strs=[(b"x", 2)], miss=2)), (b"h", m.ty("BITFIELD", 2, dict(opt=True), bits=[(b"x", 0, 16)], miss=513)),
          (b"s", m.ty("STRING", 4, dict(opt=True), smax=3, sm=b"abc", cb=True)), (b"o", m.ty("BOOL", 1, dict(opt=True), miss=1)), (b"z", m.ty("ENUM", 4, dict(opt=True, strict=True), strs=[(b"x", 7)], miss=7))]
    return m.done(m.map(fs, dict(ptr=True)), keys=[k for k, _ in fs] + [b"x"], vals=[b"1", b"x"], deep=2, rejs=[0, 1])


@model_
def misfit(deep):
    """Defaults that do not fit."""
    m = M("misfit")
    fs = [(b"a", m.ty("INT", 1, dict(opt=True), miss=128)), (b"b", m.ty("UINT", 1, dict(opt=True, ptr=True), miss=256)), (b"s", m.ty("STRING", 3, dict(opt=True), smax=2, sm=b"abc"))]
    return m.done(m.map(fs, dict(ptr=True)), keys=[k for k, _ in fs], vals=[b"1"], deep=1)


@model_
def folding(deep):
    """Names whose case is of no account."""
    m = M("folding", ci=True)
    e = m.ty("ENUM", 1, dict(strict=True), strs=[(b"Ab", 1), (b"aB", 2), "\u00c5\u0100".encode() and ("\u00c5\u0100".encode(), 3)])
    f = m.ty("ENUM", 1, dict(strict=True, cs=True, opt=True), strs=[(b"Ab", 1), (b"aB", 2)])
    return m.done(m.map([(b"Key", e), (b"kEY2", f), ("\u00d7".encode(), m.ty("UINT", 1, dict(opt=True)))], dict(ptr=True)),
                  keys=[b"key", b"KEY", b"key2", "\u00f7".encode(), "\u00d7".encode()], vals=[b"ab", b"aB", "\u00e5\u0101".encode(), "\u00e5\u0102".encode()], deep=1)


@model_
def recursive(deep):
    """Lists and trees: a schema within itself."""
    m = M("recursive")
    d = m.ty("MAPPING", 0, dict(ptr=True))
    ref = m.ref(d, opt=True)
    ch = m.seq(m.ref(d), dict(ptr=True, opt=True))
    m.g.set_fields(d, [m.ty("UINT", 1), ref, ch], [b"v", b"n", b"c"])
    return m.done(d, keys=[b"v", b"n", b"c"], vals=[b"1", b"x"], deep=4)


@model_
def streams(deep):
    """Streams that break off anywhere, and that go on."""
    m = M("streams")
    return m.done(m.map([(b"a", m.ty("UINT", 1)), (b"b", m.seq(m.ty("UINT", 1), dict(ptr=True, opt=True)))], dict(ptr=True)),
                  keys=[b"a", b"b", b"z"], vals=[b"1", b"x", (b"3", b"p")], als=[b"p"], errs=True, deep=2)


@model_
def oddkeys(deep):
    """Keys that are no scalars."""
    m = M("oddkeys", iuk=True, warn=True)
    return m.done(m.map([(b"a", m.ty("UINT", 1, dict(opt=True)))], dict(ptr=True)), keys=[b"a", b"z"], vals=[b"1", (b"2", b"p")], ancs=[b"", b"p"], als=[b"p"], oddkeys=True, deep=2)


@model_
def scarce(deep):
    """Every allocation refused in turn, in a load, and in a copy of what it gave."""
    m = M("scarce")
    u = m.ty("UINT", 1)
    st = m.ty("STRING", 1, dict(ptr=True))
    dm = m.map([(b"x", m.ty("STRING", 1, dict(ptr=True)))], dict(ptr=True, opt=True))
    m.s[dm]["mb"] = m.g.make_static(dm)
    item = m.map([(b"x", st)], dict(ptr=True))
    im = m.map([(b"x", m.ty("STRING", 1, dict(ptr=True)))], dict(opt=True))
    m.s[im]["mb"] = m.g.make_static(im)
    n = 26 if deep else 20
    return m.done(m.map([(b"a", m.seq(item, dict(ptr=True))), (b"d", dm), (b"i", im), (b"u", m.ty("UINT", 1, dict(opt=True, ptr=True), miss=3))], dict(ptr=True)),
                  keys=[b"a", b"d", b"i", b"u", b"x"], vals=[b"1", (b"2", b"p")], als=[b"p"], deep=3, buds=[-1] + list(range(n)), cbuds=[-1] + list(range(n)))


@model_
def vetoes(deep):
    """Callbacks on everything, and each refused in turn."""
    m = M("vetoes")
    u = m.ty("UINT", 1, cb=True)
    q = m.seq(m.ty("STRING", 1, dict(ptr=True), cb=True), dict(ptr=True, opt=True), cb=True)
    fl = m.ty("FLAGS", 1, dict(opt=True), strs=[(b"1", 1)], cb=True)
    bt = m.ty("BITFIELD", 1, dict(opt=True), bits=[(b"a", 0, 3)], cb=True)
    fx = m.seq(u, dict(opt=True), fixed=1, cb=True)
    return m.done(m.map([(b"a", u), (b"q", q), (b"l", fl), (b"b", bt), (b"x", fx), (b"e", m.ty("ENUM", 1, dict(opt=True), strs=[(b"1", 1)], cb=True)), (b"f", m.ty("FLOAT", 8, dict(opt=True), fm=2.0, cb=True))], dict(ptr=True), cb=True),
                  keys=[b"a", b"q", b"l", b"b", b"x", b"e", b"f"], vals=[b"1"], deep=2, rejs=list(range(7)))


# the most events a document may have: quick, thorough
BOUNDS = dict(
    aliases=(11, 13), badbits=(11, 13), barred=(9, 12), bits=(9, 11), defaults=(10, 12), entries=(9, 12), fields=(12, 16), fixedptr=(8, 10), floats=(8, 10), folding=(10, 12),
    ignored=(10, 12), lists=(18, 28), misfit=(12, 14), mustignore=(12, 15), nested=(17, 25), noalias=(10, 14), nullroot=(8, 10), nulls=(9, 11), numbers=(6, 6), oddkeys=(10, 13),
    recursive=(20, 28), replays=(12, 15), scarce=(14, 22), sizes=(10, 13), streams=(12, 16), texts=(12, 14), uneven=(9, 12), union=(10, 12), vetoes=(10, 14), within=(14, 20), words=(9, 10))


# ----------------------------------------------------------------------
def render(evs):
    """A document that gives these events: [k, v, a]."""
    out = []
    st = []      # [kind, items so far]
    broken = False

    def before():
        if not st:
            return b""
        k, n = st[-1]
        st[-1][1] += 1
        if k == "Q":
            return b", " if n else b""
        return (b", " if n else b"") + b"? " if n % 2 == 0 else b" : "
    for k, v, a in evs:
        v, a = bytes(v), bytes(a)
        if k == "SC":
            t = v if WORDLIKE.match(v) else dquote(v)
            out.append(before() + (b"&" + a + b" " if a else b"") + t)
        elif k == "AL":
            out.append(before() + b"*" + a + b" ")
        elif k in ("QS", "MS"):
            out.append(before() + (b"&" + a + b" " if a else b"") + (b"[" if k == "QS" else b"{"))
            st.append([k[0], 0])
        elif k in ("QE", "ME"):
            st.pop()
            out.append(b"]" if k == "QE" else b"}")
        elif k == "DS" and len([1 for x in evs if x[0] == "DS"]) > 1 and b"".join(out):
            out.append(b"\n--- [1, 2]\n")
        elif k == "ERR" and not broken:
            broken = True
            if not out and not st and len(evs) == 1:
                out.append(b"\xff")
            elif st:
                out.append((b", " if st[-1][1] and st[-1][1] % 2 == 0 else b" ") + b"@")
            else:
                out.append(b"\n}" if b"".join(out) else b"}")
    if not broken:      # the library read no further
        out += [b"]" if k == "Q" else b"}" for k, _ in reversed(st)]
    return b"".join(out) + b"\n"


def unescape(s):
    return s.replace('\\"', '"').replace("\\\\", "\\")


RE_DOC = re.compile(r'^<<"DOC", (\d+), (\d+), "(.*)">>$', re.M)


def check_models(names, deep, work, timeout):
    """Model check these; statistics, failures, and (model, [(document, refusal)])."""
    ms = [MODELS[n](deep) for n in names]
    for n, m in zip(names, ms):
        m.p.setdefault("max", BOUNDS[n][deep])
    f = os.path.join(work, "models.ndjson")
    with open(f, "w") as fh:
        for m in ms:
            fh.write(json.dumps(m.spec(), separators=(",", ":")) + "\n")
    rc, out = runner.tlc("CyamlMC.tla", "CyamlMC.cfg", env=dict(SCN=f), workers=runner.JOBS, heap="12g", timeout=timeout, work=work, extra=("-checkpoint", "0"))
    mt = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    if "Model checking completed. No error has been found." not in out:
        i = out.find("Error:")
        raise runner.Broken("the specification is at odds with itself (rc %d):\n%s" % (rc, "\n".join(l for l in out[i:i + 60000].splitlines() if "DOC" not in l)))
    docs = {}
    for i, rej, j in RE_DOC.findall(out):
        docs.setdefault(int(i) - 1, set()).add((render(json.loads(unescape(j))), int(rej)))
    return ([dict(models=names, states=int(mt[-1][1]), transitions=int(mt[-1][0]))], [(m, sorted(docs.get(i, ()))) for i, m in enumerate(ms)])


def histories(pid, found, per=24, cap=None, seed="1"):
    """The documents met, as calls on the real library."""
    out = []
    for m, docs in found:
        r = random.Random("%s/%s" % (seed, m.name))
        docs = list(docs)
        r.shuffle(docs)      # (alike ones apart)
        if cap:
            docs = docs[:cap]
        for k in range(0, len(docs), per):
            s = Scenario.from_json(m.s.to_json())
            s.id = "%s-mc-%s-%d" % (pid, m.name, k // per)
            for j, (t, rej) in enumerate(docs[k:k + per]):
                d = s.doc(t)
                s.op("LOAD", m.root, 1, d, rej, 0)
                if rej == 0:
                    if pid in SAVES:
                        s.op("SAVE", 1, 0, 0)
                        if pid in ROUND:
                            s.op("RELOAD", m.root, 3, 0, 0, iso=1)
                            s.op("FREE", 3)
                    if pid in COPIES:
                        s.op("COPY", 1, 2)
                        s.op("FREE", 1)
                        s.op("FREE", 2)
                    if pid in ("C03",) and j % 2 == 0:
                        s.op("OOML", m.root, d, j // 2 % 2, 60, 1, 0)
                s.op("FREE", 1)
            out.append(s)
    return out


SAVES = {"C06", "C09", "C14", "C15", "C18", "C20", "C22"}
ROUND = {"C15"}
COPIES = {"C02", "C03", "C07", "C08", "C09", "C16", "C23"}
# the models that bear on each property
BEAR = {
    "C01": ["streams", "lists", "nested", "uneven", "misfit", "vetoes"],
    "C02": ["lists", "nested", "within", "fixedptr", "recursive", "defaults", "aliases"],
    "C03": ["scarce", "fixedptr"],
    "C04": ["fields", "nested", "lists", "mustignore", "oddkeys", "recursive", "barred"],
    "C05": ["numbers", "words", "floats", "texts", "sizes"],
    "C06": ["union", "bits", "badbits"],
    "C07": ["lists", "within", "numbers", "defaults"],
    "C08": ["defaults", "misfit", "texts", "words", "nested"],
    "C09": ["nulls", "nullroot"],
    "C10": ["aliases", "replays", "noalias", "ignored"],
    "C11": ["ignored", "mustignore", "oddkeys"],
    "C12": ["vetoes", "entries", "fields", "union"],
    "C13": ["entries", "lists", "within", "barred", "uneven", "fixedptr"],
    "C14": ["words", "union", "bits", "nulls", "numbers", "lists"],
    "C15": ["words", "union", "nulls", "numbers", "floats", "texts", "lists", "recursive"],
    "C16": ["nested", "lists", "fixedptr", "recursive", "defaults", "scarce"],
    "C17": ["folding"],
    "C20": ["streams", "lists", "nested", "vetoes", "uneven"],
    "C22": ["streams", "texts"],
    "C23": ["recursive"],
    "C24": ["streams", "oddkeys", "noalias"],
    "C26": ["ignored", "mustignore", "oddkeys", "streams", "fields"],
    "C27": ["streams", "lists"],
}


def run(pid, tier, work):
    import client, exhaust
    names = BEAR.get(pid, [])
    deep = tier == "thorough"
    st, scns = client.run(pid, tier, work)
    if names:
        st1, found = check_models(names, deep, work, 700)
        st += st1
        scns += histories(pid, found, cap=4000 if deep else 250)
    return st, exhaust.run(pid, tier) + scns, []


if __name__ == "__main__":
    import sys, tempfile, shutil, time
    for n in sys.argv[2:] or sorted(MODELS):
        w = tempfile.mkdtemp()
        t = time.time()
        try:
            st, found = check_models([n], sys.argv[1] == "thorough", w, 3000)
            print(n, st[0]["states"], st[0]["transitions"], "docs", len(found[0][1]), "%.0f s" % (time.time() - t), found[0][1][:3], flush=True)
        except runner.Broken as e:
            print(n, str(e)[:5000], flush=True)
        shutil.rmtree(w)
