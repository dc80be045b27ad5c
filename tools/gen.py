"""Random schemas, documents, data and histories of calls."""
import ctypes, random, re, struct, sys
sys.tracebacklimit = 6
from model import *

libc.strtof.restype = ctypes.c_float
libc.strtof.argtypes = [ctypes.c_char_p, ctypes.c_void_p]


class Node:
    __slots__ = ("k", "v", "ty", "anchor", "style")

    def __init__(self, k, v, ty=0, anchor=None, style=None):
        self.k, self.v, self.ty, self.anchor, self.style = k, v, ty, anchor, style

    def copy(self):
        if self.k == "Q":
            v = [n.copy() for n in self.v]
        elif self.k == "M":
            v = [(a.copy(), b.copy()) for a, b in self.v]
        else:
            v = self.v
        return Node(self.k, v, self.ty, self.anchor, self.style)


def S(text, ty=0, style=None):
    return Node("S", bytes(text), ty, None, style)


def walk(n, parent=None, key=None):
    """All nodes in document order, as (node, parent, index)."""
    yield n, parent, key
    if n.k == "Q":
        for i, c in enumerate(n.v):
            yield from walk(c, n, i)
    elif n.k == "M":
        for i, (a, b) in enumerate(n.v):
            yield from walk(a, n, (i, 0))
            yield from walk(b, n, (i, 1))


def replace(parent, idx, new):
    if parent.k == "Q":
        parent.v[idx] = new
    else:
        i, w = idx
        a, b = parent.v[i]
        parent.v[i] = (new, b) if w == 0 else (a, new)


# ----------------------------------------------------------------------
# Text of documents
PLAIN = re.compile(rb"^([A-Za-z0-9_][A-Za-z0-9_.+/-]*|[-+.]?[0-9][A-Za-z0-9_.+-]*|~|[A-Za-z]+( [A-Za-z0-9]+)+)$")


def dquote(b, raw=True):
    out = ['"']
    for ch in b.decode("utf8", "surrogateescape"):
        o = ord(ch)
        if ch in '"\\':
            out.append("\\" + ch)
        elif ch == "\n":
            out.append("\\n")
        elif o < 32 or o == 127:
            out.append("\\x%02x" % o)
        elif o < 127:
            out.append(ch)
        elif 0xA0 <= o < 0x2000 and raw:
            out.append(ch)
        elif o < 0x100:
            out.append("\\x%02x" % o)
        elif o < 0x10000:
            out.append("\\u%04x" % o)
        else:
            out.append("\\U%08x" % o)
    out.append('"')
    return "".join(out).encode()


class Writer:
    def __init__(self, rng, flow=None, indent=None):
        self.r = rng
        self.p_flow = rng.choice([0, 0.2, 1]) if flow is None else flow
        self.ind = rng.choice([1, 2, 4]) if indent is None else indent

    def scalar(self, n, flow, key=False):
        b = n.v
        st = n.style
        if st is None:
            st = self.r.choice(["p", "p", "p", "d", "s"])
        if b == b"" and st == "p":
            return b"" if not flow or key is None else b'""'
        if st == "p" and PLAIN.match(b):
            return b
        if st == "s" and b and all(32 <= c < 127 for c in b):
            return b"'" + b.replace(b"'", b"''") + b"'"
        return dquote(b, self.r.random() < 0.7)

    def props(self, n):
        return b"&" + n.anchor + b" " if n.anchor else b""

    def flow(self, n, key=False):
        if n.k == "A":
            return b"*" + n.v + b" "
        p = self.props(n)
        if n.k == "S":
            return p + self.scalar(n, True, key)
        if n.k == "Q":
            return p + b"[" + b", ".join(self.flow(c) for c in n.v) + b"]"
        out = []
        for a, b in n.v:
            v = self.flow(b)
            out.append(self.flow(a, True) + b": " + v)
        return p + b"{" + b", ".join(out) + b"}"

    def block(self, n, ind):
        """Text after 'key:' or '-': begins with a space or a line break, ends with a line break."""
        if n.k in "SA" or not n.v or n.style == "flow" or self.r.random() < self.p_flow:
            if n.k == "S" and n.style == "lit":
                lines = n.v.split(b"\n")
                pad = b" " * (ind + self.ind)
                return b" " + self.props(n) + b"|\n" + b"".join((pad + l if l else b"") + b"\n" for l in lines[:-1])
            if n.k == "S":
                t = self.props(n) + self.scalar(n, False, None)
                return b" " + t + b"\n" if t else b"\n"
            return b" " + self.flow(n) + b"\n"
        p = self.props(n)
        head = (b" " + p.rstrip() if p else b"") + b"\n"
        return head + self.body(n, ind + self.ind)

    def body(self, n, ind):
        pad = b" " * ind
        out = []
        if n.k == "Q":
            for c in n.v:
                out.append(pad + b"-" + self.block(c, ind))
        else:
            for a, b in n.v:
                if a.k in "SA":
                    out.append(pad + self.flow(a, True) + b":" + self.block(b, ind))
                else:
                    out.append(pad + b"? " + self.flow(a) + b"\n" + pad + b":" + self.block(b, ind))
        return b"".join(out)

    def doc(self, n):
        if n.k in "SA" or not n.v or n.anchor or self.r.random() < self.p_flow:
            if n.k == "S":
                return (self.props(n) + self.scalar(n, False, None) or b'""') + b"\n"
            return self.flow(n) + b"\n"
        return self.body(n, 0)

    def text(self, n):
        b = self.doc(n)
        c = self.r.random()
        if c < 0.1:
            b = b"---\n" + b
        elif c < 0.15:
            b = b"%YAML 1.1\n---\n" + b
        elif c < 0.2:
            b = b"# comment\n\n" + b
        if self.r.random() < 0.1:
            b += b"...\n"
        return b


# ----------------------------------------------------------------------
NAMES = [b"a", b"ab", b"abc", b"b", b"key", b"Key2", b"name", b"value", b"x", b"y", b"z", b"id", b"data",
         b"on", b"no", b"null1", b"zero", b"one_two", b"A1", b"longer key name", b"k-1", b"k.2", b"count", b"0key", b"7"]
FOLD_PAIRS = [("a", "A"), ("z", "Z"), ("\u00e0", "\u00c0"), ("\u00fe", "\u00de"), ("\u0101", "\u0100"), ("\u013a", "\u0139"),
              ("\u017e", "\u017d"), ("\u01ce", "\u01cd"), ("\u0201", "\u0200"), ("\u00ff", "\u0178"), ("\u014b", "\u014a"),
              ("\u01dd", "\u018e"), ("\u0192", "\u0191"), ("\u0199", "\u0198"), ("\u01b4", "\u01b3"), ("\u01c6", "\u01c4"),
              ("\u01c9", "\u01c8"), ("\u024f", "\u024e"), ("\u2c65", "\u023a"), ("\u019a", "\u023d")]
NEAR = [("\u00d7", "\u00f7"), ("\u00df", "\u00ff"), ("[", "{"), ("@", "`"), ("\u0131", "i"), ("\u0130", "i"), ("\u017f", "s"),
        ("\u0138", "\u0139"), ("\u0149", "\u014a"), ("\u03b1", "\u0391"), ("\u0430", "\u0410"), ("\u212a", "k"), ("\u00b5", "\u03bc"),
        ("\u1e01", "\u1e00"), ("\uff41", "\uff21"), ("\u0253", "\u0181"), ("\u0195", "\u01f6"), ("e", "\u00e9"), ("\u00e9", "\u0119")]

BAD_NUM = [b"", b"abc", b"1x", b"0x", b"--1", b"+-1", b"1 ", b" ", b"1.5", b"1e3", b"99999999999999999999", b"08", b"0x1G", b"+", b"-",
           b"1_000", b"true", b"-1", b"-0x5", b"0x8000000000000000", b"0xffffffffffffffff", b"0x10000000000000000",
           b"18446744073709551615", b"18446744073709551616", b"9223372036854775807", b"9223372036854775808",
           b"-9223372036854775808", b"-9223372036854775809", b"-18446744073709551615", b"01777777777777777777777",
           b"02000000000000000000000", b"\xef\xbc\x95", b"5\x00", b"1,0", b"0 1", b"1-", b"0x-1", b"- 1", b"null", b"~", b"4294967296",
           b"65536", b"256", b"-129", b"128", b"-32769", b"2147483648", b"1" * 40, b"0" * 30 + b"7"]
BAD_FLOAT = [b"", b"abc", b"1.5x", b"1e", b"--1", b"1 ", b"1e400", b"-1e400", b"1e-400", b"1e39", b"-1e39", b"1e-42", b"1e-50", b"3.5e38", b"3.40282358e38",
             b"0x1p200", b"1.2.3", b"e5", b".", b"-", b"1,5", b"infinit", b"1e-320", b"4.9e-324", b"null"]
GOOD_FLOAT = [b"0", b"-0.0", b"1", b"1.5", b"-2.25", b"3.402823466e38", b"1e10", b"0.1", b"1e-10", b"123456789.123456789", b"inf", b"-INF",
              b"infinity", b"0x1.8p3", b"1.7976931348623157e308", b"2.2250738585072014e-308", b"5e-324", b" 1.5", b"+3", b".5", b"5.", b"1E5",
              b"1.17549435e-38", b"1.4e-45", b"16777217", b"9007199254740993", b"0.30000000000000004", b"3.14159265358979", b"1e37", b"1e-37",
              b"3.40282347e+38", b"-3.40282355e38", b"3.4028234663852886e38", b"-3.4028234663852886e38"]


def float_ok(t):
    """Is the text outside the double rounding cases (and not NaN)?"""
    e = float_env(t)
    if not e["ok"]:
        return True
    d = struct.unpack("<d", bytes(e["d8"]))[0]
    if d != d:
        return False
    return bytes(ctypes.c_float(libc.strtof(t, None))) == bytes(e["f4"])


GOOD_FLOAT = [t for t in GOOD_FLOAT if float_ok(t)]
BAD_FLOAT = [t for t in BAD_FLOAT if float_ok(t)]

DEFAULTS = dict(
    kinds=dict(INT=3, UINT=3, BOOL=1, ENUM=2, FLAGS=1, FLOAT=1, STRING=3, MAPPING=2, BITFIELD=1, SEQUENCE=2, SEQUENCE_FIXED=1, IGNORE=0),
    depth=3, fields=(1, 6), opt=0.3, default=0.4, baddefault=0.02, loosedef=0.5, ptr=0.35, nul=0.2, nls=0.15, strict=0.3, case=0.2, cb=0.0, range=0.4,
    style=0.0, sstyle=0.0, foldnames=0.0, recursive=0.1, unlimited=0.4, entries=(0, 4), gaps=0.3, badbits=0.0, topseq=0.2, topother=0.1,
    # documents
    bad=0.0, struct=0.0, alias=0.0, ignore=0.3, unknown=0.0, nulltext=0.2, shuffle=0.5, casevary=0.3, weird=0.2, omit=0.5,
    nodes=90,
    # configuration
    iuk=0.2, ci=0.2, noalias=0.0, block=0.0, flow=0.0, delim=0.0, warn=0.1, nolog=0.2, ro=0.3,
)


class Gen:
    def __init__(self, rng, **kw):
        self.r = rng
        self.p = dict(DEFAULTS)
        for k in kw:
            assert k in self.p, k
        self.p.update(kw)
        self.p["kinds"] = dict(DEFAULTS["kinds"], **kw.get("kinds", {}))
        self.writer = Writer(rng)

    def chance(self, k):
        return self.r.random() < (self.p[k] if isinstance(k, str) else k)

    # ------------------------------------------------------------ schemas
    def scenario(self, sid):
        r = self.r
        cfg = {k: self.chance(k) for k in ("iuk", "ci", "noalias", "block", "flow", "delim", "warn")}
        s = Scenario(sid, cfg, level=r.choice([0, 0, 1, 2, 3, 4, 4]), haslog=not self.chance("nolog"), ro=self.chance("ro"))
        s.ctxs = r.choice([0, 0, 0, 1, 2, 4, 7]) | r.choice([0, 0, 0, 0, 8]) | r.choice([0, 0, 0, 0, 16])
        self.s = s
        self.mapstack = []
        return s

    def names(self, n):
        r = self.r
        out = []
        seen = set()
        while len(out) < n:
            if self.chance("foldnames"):
                pr = r.choice(FOLD_PAIRS) if r.random() < 0.7 else r.choice(NEAR)
                nm = "".join(r.choice(["", "k", "Q"]) + r.choice(pr) for _ in range(r.randint(1, 2)))
                nm = nm.encode()
                if nm == b"" or not nm:
                    continue
            elif n > 12:
                nm = b"f%d" % len(out)
            else:
                nm = r.choice(NAMES)
                if r.random() < 0.2:
                    nm = nm + b"%d" % r.randint(0, 9)
            if nm in seen:
                continue
            # (the same name in another case only where names are the subject)
            if not self.p["foldnames"] and nm.lower() in {x.lower() for x in seen}:
                continue
            seen.add(nm)
            out.append(nm)
        return out

    def fl(self, t, top=False, field=False, entry=False):
        r, p = self.r, self.p
        f = {}
        if top or self.chance("ptr"):
            f["ptr"] = True
            if self.chance("nul"):
                f["nul"] = True
            if self.chance("nls"):
                f["nls"] = True
        if field and self.chance("opt"):
            f["opt"] = True
        if t in ("ENUM", "FLAGS", "FLOAT") and self.chance("strict"):
            f["strict"] = True
        if t in ("MAPPING", "ENUM", "FLAGS", "BITFIELD"):
            if self.chance("case"):
                f["ci"] = True
            if self.chance("case"):
                f["cs"] = True
        if self.chance("style"):
            f["blk"] = r.random() < 0.6
            f["flw"] = r.random() < 0.6
        if self.chance("sstyle"):
            for k in ("plain", "fold", "lit", "sq", "dq"):
                f[k] = r.random() < 0.35
        return f

    def strvals(self, size, signed):
        r = self.r
        n = r.randint(1, 6)
        names = self.names(n)
        out = []
        for i, nm in enumerate(names):
            bits = size * 8
            if signed:
                v = r.choice([i, r.randint(-(1 << bits - 1), (1 << bits - 1) - 1), -i, (1 << bits - 1) - 1, -(1 << bits - 1)])
            else:
                v = r.choice([1 << r.randrange(bits), 1 << r.randrange(bits), r.getrandbits(bits)])
                v = v if v < 1 << 63 else v - (1 << 64)
            out.append((nm, v))
        return out

    def kind(self, depth, entry_of=None):
        r = self.r
        ks = dict(self.p["kinds"])
        if depth <= 0:
            for k in ("MAPPING", "SEQUENCE", "SEQUENCE_FIXED"):
                ks[k] = 0
        if entry_of is not None:
            ks["SEQUENCE"] = 0
            ks["IGNORE"] = 0
        if not any(ks.values()):
            ks = dict(INT=1, STRING=1)
        return r.choices(list(ks), list(ks.values()))[0]

    def type(self, depth, top=False, field=False, entry_of=None, kind=None):
        """Add a type to the scenario; returns its number."""
        r, s = self.r, self.s
        if (field or entry_of == "SEQUENCE") and self.mapstack and self.chance("recursive"):
            return self.recursive_ref(field, entry_of)
        t = kind or self.kind(depth, entry_of)
        f = self.fl(t, top, field, entry_of is not None)
        cb = self.chance("cb") and t not in ("BOOL", "IGNORE")
        isdef = field and f.get("opt") and self.chance("default")
        if t in ("INT", "UINT", "ENUM", "FLAGS", "BITFIELD", "BOOL"):
            size = r.choice([1, 1, 2, 2, 4, 4, 8, 8, 3, 5, 6, 7])
            d = mktype(t, size, f, cb=cb)
            bits = size * 8
            if t == "INT" and self.chance("range"):
                lo, hi = -(1 << bits - 1), (1 << bits - 1) - 1
                a, b = sorted([r.choice([lo, hi, 0, -5, 10, r.randint(lo, hi)]) for _ in range(2)])
                d["min"], d["max"] = a, b
            if t == "UINT" and self.chance("range"):
                hi = (1 << bits) - 1
                a, b = sorted([r.choice([hi, 0, 5, 100, r.randint(0, hi)]) for _ in range(2)])
                d["min"], d["max"] = a, b
            if t in ("ENUM", "FLAGS"):
                d["strs"] = self.strvals(size, t == "ENUM")
            if t == "BITFIELD":
                o = 0
                names = self.names(r.randint(1, 5))
                bl = []
                for nm in names:
                    o += r.choice([0, 0, 0, 1, 3])
                    left = size * 8 - o
                    if left <= 0:
                        break
                    w = left if r.random() < 0.1 else r.randint(1, min(left, r.choice([1, 4, 12, 64])))
                    bl.append((nm, o, w))
                    o += w
                if self.chance("badbits"):
                    nm = b"badbits"
                    bl.insert(r.randint(0, len(bl)), (nm, size * 8 - r.choice([0, 1]), 2))
                r.shuffle(bl)
                d["bits"] = bl
            if isdef:
                if t in ("INT", "ENUM"):
                    d["miss"] = r.choice([1, -1, r.randint(-(1 << bits - 1), (1 << bits - 1) - 1)])
                    if t == "ENUM" and d["strs"]:
                        d["miss"] = r.choice(d["strs"])[1]
                elif t == "BOOL":
                    d["miss"] = 1
                elif t == "FLAGS":
                    d["miss"] = d["strs"][0][1] & ((1 << bits) - 1)
                elif t == "BITFIELD":
                    d["miss"] = sum(r.getrandbits(w) << o for _, o, w in d["bits"] if o + w <= bits)
                else:
                    d["miss"] = r.randint(0, (1 << bits) - 1)
                if t in ("INT", "UINT") and (d["min"] or d["max"]) and not self.chance("loosedef"):
                    # (defaults need not be in the range of what may be loaded)
                    d["miss"] = min(max(d["miss"], d["min"]), d["max"])
                if self.chance("baddefault") and size < 8 and t != "BOOL":
                    d["miss"] = 1 << bits
            return s.ty(d)
        if t == "FLOAT":
            d = mktype(t, r.choice([4, 8]), f, cb=cb)
            if isdef:
                d["fm"] = r.choice([1.5, -0.25, 3e10, 65504.0])
            return s.ty(d)
        if t == "STRING":
            d = mktype(t, 1, f, cb=cb)
            mn = r.choice([0, 0, 0, 1, 3])
            if d["fl"]["ptr"]:
                d["smin"], d["smax"] = mn, (UNLIMITED if self.chance("unlimited") else mn + r.choice([0, 1, 5, 30]))
            else:
                mx = mn + r.choice([0, 1, 4, 7, 15])
                d["smin"], d["smax"], d["sz"] = mn, mx, mx + 1 + r.choice([0, 0, 2])
            if isdef:
                n = mn + r.choice([0, 1, 4])
                d["sm"] = bytes(r.choice(b"default") for _ in range(min(n, d["smax"]) if not self.chance("baddefault") else n + 40))
            return s.ty(d)
        if t == "IGNORE":
            return s.ty(mktype(t, 0, dict(opt=f.get("opt", False) or r.random() < 0.5)))
        if t == "MAPPING":
            d = mktype(t, 0, f, cb=cb)
            i = s.ty(d)
            self.layout(i, depth)
            if isdef:
                d["mb"] = self.make_static(i)
            return i
        # sequences
        n = r.choice([1, 2, 3, 5]) if t == "SEQUENCE_FIXED" else None
        d = mktype(t, 0, f, cb=cb)
        i = s.ty(d)
        e = self.type(depth - 1, entry_of=t)
        d["ent"] = e
        d["sz"] = self.esize(e)
        least = self.least(e)
        if t == "SEQUENCE_FIXED":
            while n > 1 and (n * least > 24 or n * d["sz"] > 600):
                n -= 1
            d["smin"] = d["smax"] = n
        else:
            d["smin"] = 0 if least > 8 or "alias_of" in s[e] else r.choice([0, 0, 0, 1, 2])
            d["recursive"] = "alias_of" in s[e]
            if d["fl"]["ptr"] and self.chance("unlimited"):
                d["smax"] = UNLIMITED
            else:
                d["smax"] = d["smin"] + r.choice([0, 1, 3, 6]) or 1
                while not d["fl"]["ptr"] and d["smax"] > max(1, d["smin"]) and d["smax"] * d["sz"] > 400:
                    d["smax"] -= 1
        if isdef:
            if t == "SEQUENCE":
                d["mc"] = max(1, min(r.randint(1, 3), d["smax"]))
                if d["smin"] > d["mc"]:
                    d["mc"] = d["smin"]
            d["mb"] = self.make_static(i)
        return i

    def recursive_ref(self, field, entry_of):
        """A pointer to an enclosing mapping: (optional) data of any depth."""
        r, s = self.r, self.s
        base = r.choice(self.mapstack)
        f = dict(ptr=True, opt=bool(field), nul=r.random() < 0.5, nls=r.random() < 0.3)
        d = mktype("MAPPING", 0, f)
        d["fields"] = None
        d["alias_of"] = base
        d["recursive"] = True
        i = s.ty(d)
        return i

    def least(self, i):
        """The fewest nodes in a document of type i."""
        t = self.s[i]
        if t["fl"]["opt"] or t.get("recursive") or t["fields"] is None:
            return 1
        if t["t"] == "MAPPING":
            return 1 + sum(1 + self.least(f["ty"]) for f in t["fields"] if not self.s[f["ty"]]["fl"]["opt"])
        if t["t"] in ("SEQUENCE", "SEQUENCE_FIXED"):
            return 1 + (t["smin"] * self.least(t["ent"]) if t["smin"] else 0)
        return 1

    def esize(self, e):
        t = self.s[e]
        if t["fl"]["ptr"]:
            return 8
        if t["t"] == "SEQUENCE_FIXED":
            return t["sz"] * t["smax"]
        return t["sz"]

    def place(self, i):
        """Bytes a field of type i takes in its mapping."""
        t = self.s[i]
        if t["fl"]["ptr"]:
            return 8
        if t["t"] in ("SEQUENCE", "SEQUENCE_FIXED"):
            return t["sz"] * t["smax"]
        if t["t"] == "IGNORE":
            return 0
        return t["sz"]

    def align(self, i):
        t = self.s[i]
        if t["fl"]["ptr"]:
            return 8
        if t["t"] == "MAPPING":
            return 8 if self.has_ptr(i) else 1
        if t["t"] in ("SEQUENCE", "SEQUENCE_FIXED"):
            return self.align(t["ent"])
        return 1

    def has_ptr(self, i):
        t = self.s[i]
        if t["fl"]["ptr"]:
            return True
        if t["t"] == "MAPPING":
            return any(self.has_ptr(f["ty"]) for f in t["fields"])
        if t["t"] in ("SEQUENCE", "SEQUENCE_FIXED"):
            return self.has_ptr(t["ent"])
        return False

    def layout(self, i, depth, nfields=None):
        r, s = self.r, self.s
        d = s[i]
        n = r.randint(*self.p["fields"]) if nfields is None else nfields
        self.mapstack.append(i)
        tys = [self.type(depth - 1, field=True) for _ in range(n)]
        self.mapstack.pop()
        self.set_fields(i, tys)

    def set_fields(self, i, tys, names=None):
        r, s = self.r, self.s
        d = s[i]
        names = names or self.names(len(tys))
        parts = []
        for j, ty in enumerate(tys):
            parts.append(("v", j, self.place(ty), self.align(ty)))
            if s[ty]["t"] == "SEQUENCE":
                parts.append(("c", j, r.choice([1, 2, 4, 4, 8, 8, 3, 5]), 1))
        r.shuffle(parts)
        off = 0
        pos = {}
        for what, j, size, al in parts:
            if self.chance("gaps"):
                off += r.choice([1, 2, 4, 7])
            off = (off + al - 1) // al * al
            pos[what, j] = (off, size)
            off += size
        if self.chance("gaps"):
            off += r.choice([1, 3, 8])
        al = 8 if any(p[3] == 8 for p in parts) else 1
        d["sz"] = max(1, (off + al - 1) // al * al)
        d["fields"] = [dict(key=names[j], ty=ty, off=pos["v", j][0],
                            coff=pos.get(("c", j), (0, 0))[0], csz=pos.get(("c", j), (0, 0))[1]) for j, ty in enumerate(tys)]
        # recursive references can now be resolved
        for t in s.types:
            if t.get("alias_of") == i:
                t["fields"] = d["fields"]
                t["sz"] = d["sz"]
                t["fl"]["ci"], t["fl"]["cs"] = d["fl"]["ci"], d["fl"]["cs"]
                del t["alias_of"]

    def root(self, kind=None):
        """A schema for whole documents."""
        r = self.r
        if kind is None:
            c = r.random()
            kind = "SEQUENCE" if c < self.p["topseq"] else None
            if kind is None and c > 1 - self.p["topother"]:
                kind = self.kind(self.p["depth"])
                if kind == "IGNORE":
                    kind = "MAPPING"
            kind = kind or "MAPPING"
        i = self.type(self.p["depth"], top=True, kind=kind)
        self.s[i]["fl"]["opt"] = False
        return i

    # -------------------------------------------------------------- data
    def good_scalar_value(self, t):
        r = self.r
        bits = t["sz"] * 8
        if t["t"] == "INT":
            lo, hi = -(1 << bits - 1), (1 << bits - 1) - 1
            if t["min"] or t["max"]:
                lo, hi = max(lo, t["min"]), min(hi, t["max"])
            if lo > hi:
                return lo
            return r.choice([lo, hi, max(lo, min(hi, 0)), max(lo, min(hi, -1)), r.randint(lo, hi), max(lo, min(hi, r.randint(-100, 100)))])
        if t["t"] == "UINT":
            lo, hi = 0, (1 << bits) - 1
            if t["min"] or t["max"]:
                lo, hi = max(lo, t["min"]), min(hi, t["max"])
            if lo > hi:
                return lo
            return r.choice([lo, hi, r.randint(lo, hi), max(lo, min(hi, r.randint(0, 100))), max(lo, min(hi, 1 << bits - 1))])

    def fill(self, ty, put, alloc, a, depth=0, forbid=0.0):
        """Write random data of type ty at address a = (block, offset).
        put(a, bytes); ptr(a, block); alloc(n) -> block.  Returns the count of a variable sequence."""
        r, s = self.r, self.s
        t = s[ty]
        put_b, put_p = put
        if depth == 0:
            self.left = self.p["nodes"]
        self.left -= 1
        if t["fl"]["ptr"]:
            if depth and ((t["fl"]["nul"] or t["fl"]["opt"]) and (r.random() < 0.3 or depth > 4 or self.left < 0) or r.random() < forbid * 0.3):
                return 0
        n = 0
        if t["t"] == "SEQUENCE":
            lo = t["smin"]
            hi = min(t["smax"], lo + 4)
            n = r.randint(lo, hi)
            if t.get("recursive") and depth > 2:
                n = min(n, 1)
            if depth > 6 or self.left < 0:
                n = lo
            if depth == 0:
                n = t["mc"] or max(1, n)
            if n == 0 and (not t["fl"]["ptr"] or r.random() < 0.7):
                return 0     # otherwise a pointer to no entries
        if t["t"] == "STRING":
            hi = min(t["smax"], t["smin"] + 12)
            k = r.randint(t["smin"], hi)
            text = self.string(k, hi)
            if r.random() < forbid * 0.3 and len(text) + 2 <= (t["sz"] if not t["fl"]["ptr"] else 99):
                text = text[:-1] + b"\xff" if text else text
        if t["fl"]["ptr"]:
            size = {"STRING": lambda: len(text) + 1, "SEQUENCE": lambda: t["sz"] * n,
                    "SEQUENCE_FIXED": lambda: t["sz"] * t["smax"]}.get(t["t"], lambda: t["sz"])()
            b = alloc(size)
            put_p(a, b)
            a = (b, 0)
        k = t["t"]
        bits = t["sz"] * 8
        if k in ("INT", "UINT"):
            put_b(a, (self.good_scalar_value(t) & (1 << bits) - 1).to_bytes(t["sz"], "little"))
        elif k == "BOOL":
            put_b(a, bytes([r.randint(0, 1)]) + bytes(t["sz"] - 1))
        elif k == "ENUM":
            v = r.choice(t["strs"])[1] if t["strs"] else 0
            if (not t["fl"]["strict"] and r.random() < 0.3) or r.random() < forbid * 0.5:
                v = r.getrandbits(bits)
            put_b(a, (v & (1 << bits) - 1).to_bytes(t["sz"], "little"))
        elif k == "FLAGS":
            v = 0
            for _, f in t["strs"]:
                if r.random() < 0.5:
                    v |= f
            v &= (1 << bits) - 1
            if (not t["fl"]["strict"] and r.random() < 0.3) or r.random() < forbid * 0.5:
                v = r.getrandbits(bits)
            put_b(a, v.to_bytes(t["sz"], "little"))
        elif k == "BITFIELD":
            v = sum(r.getrandbits(w) << o for _, o, w in t["bits"] if r.random() < 0.7 and o + w <= bits) & (1 << bits) - 1
            put_b(a, v.to_bytes(t["sz"], "little"))
        elif k == "FLOAT":
            d = r.choice([0.0, 1.5, -2.25, 0.1, 3e10, 1e-30, r.uniform(-1e6, 1e6), 1 / 3])
            put_b(a, struct.pack("<d", d) if t["sz"] == 8 else bytes(ctypes.c_float(d)))
        elif k == "STRING":
            put_b(a, text + b"\0")
        elif k == "MAPPING":
            for f in t["fields"]:
                c = self.fill(f["ty"], put, alloc, (a[0], a[1] + f["off"]), depth + 1, forbid)
                if s[f["ty"]]["t"] == "SEQUENCE" and f["csz"]:
                    put_b((a[0], a[1] + f["coff"]), (c & (1 << 8 * f["csz"]) - 1).to_bytes(f["csz"], "little"))
        elif k in ("SEQUENCE", "SEQUENCE_FIXED"):
            es = self.esize(t["ent"])
            for j in range(n if k == "SEQUENCE" else t["smax"]):
                self.fill(t["ent"], put, alloc, (a[0], a[1] + j * es), depth + 1, forbid)
        return n

    def blocks(self, ty, forbid=0.0, pointed=True):
        """Data for ty's pointee, as [(bytes, patches)], the first block being the value, and its count."""
        blocks = []

        def alloc(n):
            blocks.append((bytearray(max(n, 1)), []))
            return len(blocks)

        def put_b(a, b):
            if a[0]:
                blocks[a[0] - 1][0][a[1]:a[1] + len(b)] = b

        def put_p(a, b):
            if a[0]:
                blocks[a[0] - 1][1].append((a[1], b))
        t = self.s[ty]
        if t["fl"]["ptr"]:
            n = self.fill(ty, (put_b, put_p), alloc, (0, 0), 0, forbid)
        else:
            size = t["sz"] * (t["smax"] if t["t"] == "SEQUENCE_FIXED" else (t["mc"] or 1) if t["t"] == "SEQUENCE" else 1)
            a = (alloc(size), 0)
            n = self.fill(ty, (put_b, put_p), alloc, a, 0, forbid)
        return [(bytes(b), p) for b, p in blocks], n

    def make_static(self, ty):
        t = self.s[ty]
        if any(x.get("alias_of") or x["fields"] is None for x in self.s.types):
            return 0     # not all of the schema is there yet
        if t["t"] == "SEQUENCE" and t["mc"] == 0:
            t["mc"] = 1
        bl, n = self.blocks(ty)
        base = len(self.s.statics) + 2
        for b, p in bl:
            self.s.static(b, [(o, i + base) for o, i in p])
        return base + 1

    # --------------------------------------------------------- documents
    def string(self, lo, hi):
        """A string of between lo and hi bytes."""
        r = self.r
        n = r.randint(lo, max(lo, hi))
        if not self.chance("weird"):
            return bytes(r.choice(b"abcdefghijklmnopqrstuvwxyzABCXYZ0123456789") for _ in range(n))
        alpha = ["a", "b", " ", "\n", "'", '"', ":", "#", "-", "?", "\t", "\\", "{", "]", ",", "&", "*", "!", "|", ">", "%", "@", "`", "~", "null",
                 "0", "1", ".", "\u00e9", "\u0101", "\u20ac", "\U0001f600", "\u0085", "\u2028", "\ufeff", "\x01", "\x7f", "\u00a0", "true", "  ", "---", "..."]
        out = b""
        while len(out) < n:
            c = r.choice(alpha).encode()
            if len(out) + len(c) <= n:
                out += c
            elif n - len(out) >= 1:
                out += b"q"
        return out

    def int_text(self, v):
        r = self.r
        c = r.random()
        neg = "-" if v < 0 else ("+" if r.random() < 0.05 else "")
        m = abs(v)
        if c < 0.7:
            t = "%s%d" % (neg, m)
        elif c < 0.85:
            t = "%s0x%x" % (neg, m)
            if r.random() < 0.5:
                t = t.upper()
        elif c < 0.97:
            t = "%s0%o" % (neg, m)
        else:
            t = " " + "%s%d" % (neg, m)
        return t.encode()

    def vary_case(self, b, insensitive):
        if not self.chance("casevary") or (not insensitive and self.r.random() < 0.5):
            return b
        s = b.decode()
        r = self.r
        c = r.random()
        if c < 0.3:
            s = s.swapcase()
        elif c < 0.5:
            s = s.upper()
        else:
            pairs = FOLD_PAIRS if r.random() < 0.7 else FOLD_PAIRS + NEAR
            for a, z in r.sample(pairs, len(pairs)):
                if a in s and r.random() < 0.8:
                    s = s.replace(a, z, 1)
                    break
                if z in s and r.random() < 0.8:
                    s = s.replace(z, a, 1)
                    break
        return s.encode()

    def insens(self, t):
        return t["fl"]["ci"] or (not t["fl"]["cs"] and self.s.cfg["ci"])

    def junk(self, depth=2):
        """Any content at all."""
        r = self.r
        c = r.random()
        if depth <= 0 or c < 0.4:
            n = S(r.choice([b"junk", b"", b"12", b"~", b"a b", b"\n\t\"", b"x: y"]))
        elif c < 0.7:
            n = Node("Q", [self.junk(depth - 1) for _ in range(r.randint(0, 3))])
        else:
            n = Node("M", [(self.junk(depth - 1 if r.random() < 0.1 else 0), self.junk(depth - 1)) for _ in range(r.randint(0, 3))])
        if r.random() < 0.15 and not self.s.cfg["noalias"]:
            n.anchor = r.choice([b"j1", b"j2", b"x"])
        return n

    def value(self, ty, depth=0):
        """A document for type ty, mostly valid."""
        r, s = self.r, self.s
        t = s[ty]
        k = t["t"]
        bits = t["sz"] * 8
        if depth == 0:
            self.left = self.p["nodes"]
        self.left -= 1
        if (t["fl"]["nul"] and self.chance("nulltext")) or (self.chance("nulltext") and r.random() < 0.15):
            return S(r.choice([b"", b"", b"~", b"null", b"Null", b"NULL", b"nULL"]), ty)
        if k != "IGNORE" and self.chance("struct") and r.random() < 0.3:
            return self.junk()
        bad = self.chance("bad")
        if k in ("INT", "UINT"):
            if bad:
                v = self.good_scalar_value(t)
                edge = [t["min"] - 1, t["max"] + 1, (1 << bits), (1 << bits) - 1, (1 << bits - 1), -(1 << bits - 1) - 1, -1, t["min"], t["max"]]
                text = r.choice([r.choice(BAD_NUM), self.int_text(r.choice(edge)), self.int_text(v) + b"x", b"%d.0" % v])
            else:
                text = self.int_text(self.good_scalar_value(t))
            return S(text, ty)
        if k == "BOOL":
            return S(r.choice([b"true", b"false", b"yes", b"no", b"on", b"off", b"enable", b"disable", b"1", b"0", b"FALSE", b"No", b"oFF",
                               b"True", b"maybe", b"DISABLE", b"00", b"falsey", b"n", b"disabled"]), ty)
        if k == "ENUM":
            if bad or not t["strs"]:
                text = r.choice([b"nosuch", b"", t["strs"][0][0][:-1] if t["strs"] else b"q", t["strs"][0][0] + b"x" if t["strs"] else b"q",
                                 self.int_text(1 << bits - 1), self.int_text(-(1 << bits - 1)), r.choice(BAD_NUM)])
            elif r.random() < 0.75:
                text = self.vary_case(r.choice(t["strs"])[0], self.insens(t))
            else:
                text = self.int_text(r.choice([r.choice(t["strs"])[1], r.randint(-(1 << bits - 1), (1 << bits - 1) - 1)]))
            return S(text, ty)
        if k == "FLAGS":
            ns = []
            for _ in range(r.randint(0, 4)):
                c = r.random()
                if c < 0.75:
                    ns.append(S(self.vary_case(r.choice(t["strs"])[0], self.insens(t))))
                elif c < 0.95:
                    ns.append(S(self.int_text(r.getrandbits(r.choice([bits, 4])))))
            if bad:
                ns.insert(r.randint(0, len(ns)), r.choice([S(b"nosuch"), S(self.int_text(1 << bits)), S(r.choice(BAD_NUM)), self.junk(1)]))
            return Node("Q", ns, ty)
        if k == "BITFIELD":
            bl = r.sample(t["bits"], r.randint(0, len(t["bits"])))
            ms = []
            for n, o, w in bl:
                v = r.choice([(1 << w) - 1, 0, r.getrandbits(w)])
                ms.append((S(self.vary_case(n, self.insens(t))), S(self.int_text(v))))
            if bad:
                n, o, w = r.choice(t["bits"] or [(b"q", 0, 1)])
                ms = [m for m in ms if m[0].v != n]
                ms.insert(r.randint(0, len(ms)), r.choice([
                    (S(n), S(self.int_text(1 << w))), (S(b"nosuch"), S(b"1")), (S(n), S(r.choice(BAD_NUM))), (S(n), self.junk(1)), (self.junk(1), S(b"1")),
                    (S(n), S(b"-1")), (S(n), S(self.int_text((1 << w) | 1 << 63)))]))
            return Node("M", ms, ty)
        if k == "FLOAT":
            if bad:
                return S(r.choice(BAD_FLOAT), ty)
            for _ in range(20):
                text = r.choice([r.choice(GOOD_FLOAT), repr(r.uniform(-1e3, 1e3)).encode(), repr(f32(r.uniform(-1e30, 1e30))).encode()])
                if float_ok(text):
                    return S(text, ty)
            return S(b"1.5", ty)
        if k == "STRING":
            lo, hi = t["smin"], min(t["smax"], t["smin"] + r.choice([3, 12, 40]))
            if bad:
                lo, hi = r.choice([(max(0, lo - 1), max(0, lo - 1)), (min(t["smax"] + 1, 60), min(t["smax"] + 1, 60)), (t["smin"], t["smin"])])
            elif r.random() < 0.3:
                lo = hi = r.choice([lo, hi])
            return S(self.string(lo, hi), ty)
        if k == "IGNORE":
            return self.junk(3)
        if k == "MAPPING":
            ms = []
            for f in t["fields"]:
                ft = s[f["ty"]]
                p_in = 1.0
                if ft["fl"]["opt"]:
                    p_in = 0 if depth > 6 or self.left < 0 or (depth > 2 and ft["t"] == "MAPPING" and r.random() < 0.5) else 1 - self.p["omit"]
                elif ft["t"] == "IGNORE":
                    p_in = 0.9
                if r.random() >= p_in:
                    continue
                ms.append((S(self.vary_case(f["key"], self.insens(t))), self.value(f["ty"], depth + 1)))
                if ft["t"] == "IGNORE" and r.random() < 0.2:
                    ms.append((S(f["key"]), self.junk()))
            if self.chance("shuffle"):
                r.shuffle(ms)
            if (s.cfg["iuk"] and self.chance("ignore")) or self.chance("unknown"):
                for _ in range(r.randint(1, 2)):
                    ms.insert(r.randint(0, len(ms)), (S(r.choice([b"unknown", b"extra", b"a!", b"", b"zz9"])), self.junk(3)))
            return Node("M", ms, ty)
        if k == "SEQUENCE":
            lo, hi = t["smin"], min(t["smax"], t["smin"] + self.p["entries"][1])
            n = r.randint(lo, max(lo, hi))
            if bad and r.random() < 0.5:
                n = r.choice([max(0, lo - 1), min(t["smax"] + 1, lo + 12)])
            if t.get("recursive") and depth > 2:
                n = min(n, 1)
            if depth > 6 or self.left < 0:
                n = lo
            return Node("Q", [self.value(t["ent"], depth + 1) for _ in range(n)], ty)
        if k == "SEQUENCE_FIXED":
            n = t["smax"]
            if bad and r.random() < 0.4:
                n = r.choice([max(0, n - 1), n + 1, 0])
            return Node("Q", [self.value(t["ent"], depth + 1) for _ in range(n)], ty)
        raise AssertionError(k)

    def mutate(self, root):
        """Break (or not) the structure at one random place."""
        r = self.r
        nodes = list(walk(root))
        n, parent, idx = r.choice(nodes)
        maps = [x for x, _, _ in nodes if x.k == "M" and x.v]
        c = r.random()
        if c < 0.25 and maps:
            m = r.choice(maps)
            del m.v[r.randrange(len(m.v))]
        elif c < 0.45 and maps:
            m = r.choice(maps)
            a, b = r.choice(m.v)
            m.v.insert(r.randint(0, len(m.v)), (a.copy(), r.choice([b.copy(), self.junk()])))
        elif c < 0.6 and maps:
            m = r.choice(maps)
            m.v.insert(r.randint(0, len(m.v)), (r.choice([S(b"unknown"), S(b""), self.junk(1)]), self.junk()))
        elif c < 0.7 and maps:
            m = r.choice(maps)
            i = r.randrange(len(m.v))
            a, b = m.v[i]
            m.v[i] = (r.choice([S(a.v + b"x") if a.k == "S" else self.junk(1), Node("Q", [a]), Node("M", [(a, S(b""))])]), b)
        elif parent is None:
            return self.junk()
        elif c < 0.85:
            replace(parent, idx, self.junk(2))
        else:
            replace(parent, idx, r.choice([Node("Q", [n]), Node("M", [(S(b"k"), n)]), S(b""), S(b"text")]))
        return root

    def add_aliases(self, root, count=None, good=True):
        r = self.r
        for _ in range(count or r.randint(1, 3)):
            nodes = list(walk(root))
            order = {id(n): i for i, (n, _, _) in enumerate(nodes)}
            pick = r.random()
            cands = [(n, p, i) for n, p, i in nodes if p is not None and n.k != "A"]
            if not cands:
                return root
            n2, p2, i2 = r.choice(cands)
            inside2 = {id(x) for x, _, _ in walk(n2)}
            # earlier nodes that do not contain n2
            earlier = [n for n, p, i in nodes if order[id(n)] < order[id(n2)] and n.k != "A" and id(n) not in inside2
                       and id(n2) not in {id(x) for x, _, _ in walk(n)}]
            same = [n for n in earlier if n.ty and n.ty == n2.ty] or \
                   [n for n in earlier if n2.ty and n.ty and self.s[n.ty]["t"] == self.s[n2.ty]["t"]]
            if pick < 0.75 and same:
                n1 = r.choice(same)
            elif pick < 0.9 and earlier and not good:
                n1 = r.choice(earlier)
            elif not good and pick > 0.95:
                replace(p2, i2, Node("A", r.choice([b"nosuch", b"x"])))
                continue
            elif same:
                n1 = r.choice(same)
            else:
                n2.anchor = n2.anchor or r.choice([b"x", b"y", b"a1", b"b-2"])
                continue
            n1.anchor = n1.anchor or r.choice([b"x", b"y", b"a1", b"b-2", b"n%d" % order[id(n1)]])
            if n2.anchor and r.random() < 0.5:
                continue
            replace(p2, i2, Node("A", n1.anchor, n2.ty))
            if r.random() < 0.3 and len(nodes) > 1:
                n3 = r.choice(nodes[1:])[0]
                if n3.k != "A" and not n3.anchor:
                    n3.anchor = r.choice([b"x", b"y", b"z", n1.anchor])
        return root

    def tree(self, ty):
        n = self.value(ty)
        if self.chance("struct"):
            n = self.mutate(n)
        if self.chance("alias"):
            n = self.add_aliases(n, good=self.r.random() < 0.8)
        return n

    def document(self, ty):
        return self.writer.text(self.tree(ty))


def trim(s):
    return s
