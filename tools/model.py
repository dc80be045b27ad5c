"""Scenarios: schemas, configurations, documents and calls, and their two
encodings: tokens for the C harness and JSON for TLC."""
import ctypes, struct

TYPES = ["INT", "UINT", "BOOL", "ENUM", "FLAGS", "FLOAT", "STRING", "MAPPING",
         "BITFIELD", "SEQUENCE", "SEQUENCE_FIXED", "IGNORE"]
UNLIMITED = 0xFFFFFFFF
FLAG = dict(opt=1 << 0, ptr=1 << 1, nul=1 << 2, nls=1 << 3, strict=1 << 4, blk=1 << 5, flw=1 << 6,
            cs=1 << 7, ci=1 << 8, plain=1 << 9, fold=1 << 10, lit=1 << 11, sq=1 << 12, dq=1 << 13)
CFG = dict(iuk=1 << 0, block=1 << 1, flow=1 << 2, delim=1 << 3, ci=1 << 4, noalias=1 << 5, warn=1 << 6)

libc = ctypes.CDLL("libc.so.6", use_errno=True)
libc.strtod.restype = ctypes.c_double
libc.strtod.argtypes = [ctypes.c_char_p, ctypes.POINTER(ctypes.c_char_p)]
FLT_MAX = struct.unpack("<f", b"\xff\xff\x7f\x7f")[0]
FLT_MIN = struct.unpack("<f", b"\x00\x00\x80\x00")[0]


def f32(d):
    return ctypes.c_float(d).value


def d8(d):
    return list(struct.pack("<d", d))


def f4(d):
    return list(bytes(ctypes.c_float(d)))


def float_env(text):
    """What the C library makes of text as a floating point number."""
    buf = ctypes.create_string_buffer(text + b"\0")
    end = ctypes.c_char_p()
    addr = ctypes.addressof(buf)
    endp = ctypes.c_void_p()
    fn = ctypes.CFUNCTYPE(ctypes.c_double, ctypes.c_void_p, ctypes.c_void_p, use_errno=True)(("strtod", libc))
    ctypes.set_errno(0)
    d = fn(addr, ctypes.addressof(endp))
    erange = ctypes.get_errno() == 34
    used = (endp.value or addr) - addr
    ok = used > 0 and used == len(text)
    return float_rec(d, ok, erange)


def float_rec(d, ok=True, rng=False):
    f = f32(d)
    return dict(ok=ok, rng=rng, d8=d8(d), f4=f4(d), f4d=d8(f), z=(d == 0.0),
                over=abs(f) > FLT_MAX,
                sub=(-FLT_MIN < d < FLT_MIN and f != d))


def b8(v):
    return list((v & (1 << 64) - 1).to_bytes(8, "little"))


ZERO8 = [0] * 8


def flags(**kw):
    f = {k: False for k in FLAG}
    f.update({k: bool(v) for k, v in kw.items()})
    if f["nls"]:
        f["nul"] = True
    if f["nul"]:
        f["ptr"] = True
    return f


def mktype(t, size, fl=None, **kw):
    """A schema value.  kw: cb, min, max, miss, smin, smax, sm (bytes or None),
    strs [(bytes, int)], bits [(bytes, o, w)], fields [dict(key, ty, off, coff, csz)],
    ent, mb, mc, fm"""
    d = dict(t=t, fl=flags(**(fl or {})), sz=size, cb=False, min=0, max=0, miss=0, smin=0, smax=UNLIMITED,
             sm=None, strs=[], bits=[], fields=[], ent=0, mb=0, mc=0, fm=0.0)
    for k in kw:
        assert k in d, k
    d.update(kw)
    return d


class Scenario:
    def __init__(self, sid, cfg=None, level=1, haslog=True, ro=False, tags=()):
        self.id = sid
        self.cfg = {k: False for k in CFG}
        self.cfg.update(cfg or {})
        self.level = level          # 0 debug 1 info 2 notice 3 warning 4 error
        self.haslog = haslog
        self.ctxs = 0      # contexts that are NULL: 1 log, 2 validation, 4 memory; 8: memory from cyaml_mem; 16: messages by cyaml_log, too
        self.ro = ro
        self.macros = False  # are the schemas given in the header's macros?
        self.types = []             # index 1..
        self.statics = []           # (bytes, [(off, id)]), ids from 3
        self.docs = []              # bytes
        self.ops = []
        self.threads = 0
        self.split = 0
        self.tags = set(tags)
        self.note = ""

    def ty(self, t):
        self.types.append(t)
        return len(self.types)

    def __getitem__(self, i):
        return self.types[i - 1]

    def static(self, b, p=()):
        self.statics.append((bytes(b), [tuple(x) for x in p]))
        return len(self.statics) + 2

    def doc(self, b):
        self.docs.append(bytes(b))
        return len(self.docs) - 1

    def op(self, k, *a, blocks=(), **kw):
        self.ops.append(dict(k=k, a=list(a), blocks=list(blocks), **kw))
        return len(self.ops) - 1

    # ------------------------------------------------------------------
    def tokens(self):
        hx = lambda b: "x" + bytes(b).hex()
        h = lambda v: "%x" % (v & (1 << 64) - 1)
        out = ["SCN", self.id, str(sum(CFG[k] for k in CFG if self.cfg[k])), str(self.level),
               str(int(self.haslog)), str(self.ctxs), str(int(self.ro)), str(self.threads), str(self.split), str(len(self.types))]
        for t in self.types:
            out += [str(TYPES.index(t["t"])), str(sum(FLAG[k] for k in FLAG if t["fl"][k])), str(t["sz"]),
                    str(int(t["cb"])), h(t["min"]), h(t["max"]), h(t["miss"]), h(t["smin"]), h(t["smax"]),
                    struct.pack(">d", t["fm"]).hex(), "-" if t["sm"] is None else hx(t["sm"]),
                    str(t["mb"]), str(t["mc"])]
            out.append(str(len(t["strs"])))
            for n, v in t["strs"]:
                out += [hx(n), h(v)]
            out.append(str(len(t["bits"])))
            for n, o, w in t["bits"]:
                out += [hx(n), str(o), str(w)]
            out.append(str(len(t["fields"])))
            for f in t["fields"]:
                out += [hx(f["key"]), str(f["ty"]), str(f["off"]), str(f["coff"]), str(f["csz"])]
            out.append(str(t["ent"]))
        out.append(str(len(self.statics)))
        for b, p in self.statics:
            out += [hx(b), str(len(p))]
            for o, i in p:
                out += [str(o), str(i)]
        out.append(str(len(self.docs)))
        out += [hx(d) for d in self.docs]
        out.append(str(len(self.ops)))
        for o in self.ops:
            out += [o["k"], str(len(o["a"]))] + [str(int(x)) for x in o["a"]]
            out.append(str(len(o["blocks"])))
            for b, p in o["blocks"]:
                out += [hx(b), str(len(p))]
                for off, i in p:
                    out += [str(off), str(i)]
        return " ".join(out) + "\n"

    def spec(self):
        """The scenario's constant part, for TLC."""
        lim = lambda v: 2147483647 if v >= 2147483647 else v
        types = []
        for i, t in enumerate(self.types):
            types.append(dict(
                t=t["t"], fl=t["fl"], sz=t["sz"], cb=(i + 1) if t["cb"] else 0,
                min=b8(t["min"]), max=b8(t["max"]), miss=b8(t["miss"]),
                rng=not (t["min"] == 0 and t["max"] == 0),
                smin=lim(t["smin"]), smax=lim(t["smax"]),
                hasm=t["sm"] is not None, sm=list(t["sm"] or b""),
                strs=[dict(n=list(n), v=b8(v)) for n, v in t["strs"]],
                bits=[dict(n=list(n), o=o, w=w) for n, o, w in t["bits"]],
                fields=[dict(key=list(f["key"]), ty=f["ty"], off=f["off"], coff=f["coff"], csz=f["csz"])
                        for f in t["fields"]],
                ent=t["ent"], mb=t["mb"], mc=t["mc"], fm=float_rec(t["fm"])))
        return dict(id=self.id, types=types, cfg=self.cfg,
                    statics=[dict(b=self.masked(b, p), p=[list(x) for x in p]) for b, p in self.statics])

    @staticmethod
    def masked(b, p):
        b = list(b)
        for o, _ in p:
            b[o:o + 8] = [255] * 8
        return b

    def to_json(self):
        return dict(id=self.id, cfg=self.cfg, level=self.level, haslog=self.haslog, ctxs=self.ctxs, ro=self.ro, macros=self.macros,
                    types=[dict(t, sm=None if t["sm"] is None else t["sm"].hex(),
                                strs=[[n.hex(), v] for n, v in t["strs"]],
                                bits=[[n.hex(), o, w] for n, o, w in t["bits"]],
                                fields=[dict(f, key=f["key"].hex()) for f in t["fields"]]) for t in self.types],
                    statics=[[b.hex(), p] for b, p in self.statics],
                    docs=[d.hex() for d in self.docs], text=[d.decode("utf8", "replace") for d in self.docs],
                    ops=[dict(o, blocks=[[b.hex(), p] for b, p in o["blocks"]]) for o in self.ops],
                    threads=self.threads, split=self.split, tags=sorted(self.tags))

    @staticmethod
    def from_json(j):
        s = Scenario(j["id"], j["cfg"], j["level"], j["haslog"], j["ro"], j["tags"])
        s.ctxs, s.macros = j["ctxs"], j.get("macros", False)
        u = bytes.fromhex
        for t in j["types"]:
            s.types.append(dict(t, sm=None if t["sm"] is None else u(t["sm"]), strs=[(u(n), v) for n, v in t["strs"]],
                                bits=[(u(n), o, w) for n, o, w in t["bits"]],
                                fields=[dict(f, key=u(f["key"])) for f in t["fields"]]))
        s.statics = [(u(b), [tuple(x) for x in p]) for b, p in j["statics"]]
        s.docs = [u(d) for d in j["docs"]]
        s.ops = [dict(o, blocks=[(u(b), [tuple(x) for x in p]) for b, p in o["blocks"]]) for o in j["ops"]]
        s.threads, s.split = j["threads"], j["split"]
        return s
