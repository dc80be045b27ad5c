"""A scenario's schemas written the way clients write them: C structures and
the header's macros.  The specification knows only the intended schema."""
import random

FLAGC = [("opt", "CYAML_FLAG_OPTIONAL"), ("strict", "CYAML_FLAG_STRICT"), ("blk", "CYAML_FLAG_BLOCK"), ("flw", "CYAML_FLAG_FLOW"),
         ("cs", "CYAML_FLAG_CASE_SENSITIVE"), ("ci", "CYAML_FLAG_CASE_INSENSITIVE"), ("plain", "CYAML_FLAG_SCALAR_PLAIN"),
         ("fold", "CYAML_FLAG_SCALAR_FOLDED"), ("lit", "CYAML_FLAG_SCALAR_LITERAL"), ("sq", "CYAML_FLAG_SCALAR_QUOTE_SINGLE"),
         ("dq", "CYAML_FLAG_SCALAR_QUOTE_DOUBLE")]
INT = {1: "int8_t", 2: "int16_t", 4: "int32_t", 8: "int64_t"}


def cstr(b):
    return '"' + "".join("\\%03o" % c for c in b) + '"'


def u64(v):
    return "0x%xull" % (v & (1 << 64) - 1)


def i64(v):
    return "(int64_t)0x%xull" % (v & (1 << 64) - 1)


def can(s):
    """Can the structures of this scenario be written in C?"""
    for t in s.types:
        if t["t"] == "MAPPING":
            parts = []
            for f in t["fields"]:
                ft = s[f["ty"]]
                if ft["t"] != "IGNORE":
                    parts.append((f["off"], place(s, f["ty"])))
                if ft["t"] == "SEQUENCE":
                    if f["csz"] < 1:
                        return False
                    parts.append((f["coff"], f["csz"]))
            at = 0
            for o, n in sorted(parts):
                if o < at:
                    return False
                at = o + n
            if at > t["sz"]:
                return False
        elif t["t"] in ("SEQUENCE", "SEQUENCE_FIXED"):
            if t["t"] == "SEQUENCE_FIXED" and t["smin"] != t["smax"]:
                return False
            if t["sz"] != place(s, t["ent"]):
                return False
            if not t["fl"]["ptr"] and not 0 < t["smax"] < 1 << 20:
                return False
        elif t["t"] == "STRING":
            if t["fl"]["ptr"] and t["sz"] != 1:
                return False
    return True


def place(s, i):
    t = s[i]
    if t["fl"]["ptr"]:
        return 8
    if t["t"] in ("SEQUENCE", "SEQUENCE_FIXED"):
        return t["sz"] * t["smax"]
    return t["sz"]


class Source:
    def __init__(self, s, n):
        self.s, self.n, self.out = s, n, []
        self.known, self.full = set(), set()
        self.r = random.Random("macros " + s.id)

    def w(self, fmt, *a):
        self.out.append(fmt % a if a else fmt)

    def name(self, k, i):
        return "%s%d_%d" % (k, self.n, i)

    def declare(self, i):
        """B (what the schema's values are) and M (what a member holding one is)."""
        if i in self.known:
            return
        self.known.add(i)
        t = self.s[i]
        B, M, k, z = self.name("B", i), self.name("M", i), t["t"], t["sz"]
        if k == "MAPPING":
            self.w("typedef struct %s %s;", self.name("S", i), B)
        elif k == "FLOAT":
            self.w("typedef %s %s;", "float" if z == 4 else "double", B)
        elif k == "STRING":
            self.w("typedef char %s%s;", B, "" if t["fl"]["ptr"] else "[%d]" % z)
        elif k in ("SEQUENCE", "SEQUENCE_FIXED"):
            self.declare(t["ent"])
            self.w("typedef %s %s;", self.name("M", t["ent"]), B)
        elif k == "IGNORE":
            return
        elif z in INT:
            self.w("typedef %s%s %s;", "" if k in ("INT", "ENUM") else "u", INT[z], B)
        else:
            self.w("typedef struct { uint8_t b[%d]; } %s;", z, B)
        if t["fl"]["ptr"]:
            self.w("typedef %s *%s;", B, M)
        elif k in ("SEQUENCE", "SEQUENCE_FIXED"):
            self.complete(t["ent"])
            self.w("typedef %s %s[%d];", B, M, t["smax"])
        else:
            self.w("typedef %s %s;", B, M)

    def complete(self, i):
        self.declare(i)
        t = self.s[i]
        if t["fl"]["ptr"] or i in self.full:
            return
        if t["t"] in ("SEQUENCE", "SEQUENCE_FIXED"):
            self.complete(t["ent"])
        elif t["t"] == "MAPPING":
            self.struct(i)

    def struct(self, i):
        if i in self.full:
            return
        self.full.add(i)
        t = self.s[i]
        self.declare(i)
        parts = []
        for j, f in enumerate(t["fields"]):
            ft = self.s[f["ty"]]
            if ft["t"] == "IGNORE":
                continue
            self.complete(f["ty"])
            parts.append((f["off"], place(self.s, f["ty"]), self.name("M", f["ty"]), "m%d" % j))
            if ft["t"] == "SEQUENCE":
                z = f["csz"]
                parts.append((f["coff"], z, "u" + INT[z] if z in INT else "struct { uint8_t b[%d]; }" % z, self.count(i, j)))
        self.w("struct __attribute__((packed)) %s {", self.name("S", i))
        at = 0
        for o, n, ty, nm in sorted(parts):
            if o > at:
                self.w("\tuint8_t p%d[%d];", at, o - at)
            self.w("\t%s %s;", ty, nm)
            at = o + n
        if t["sz"] > at:
            self.w("\tuint8_t p%d[%d];", at, t["sz"] - at)
        self.w("};")
        self.w("_Static_assert(sizeof(struct %s) == %d, \"size\");", self.name("S", i), t["sz"])

    def count(self, i, j):
        """The name of the member for the count of field j: conventional, or not."""
        return "m%d_count" % j if (i + j) % 3 else "n%d" % j

    def flags(self, t, ptr):
        """ptr: is the pointer flag to be written"""
        f = t["fl"]
        out = [c for k, c in FLAGC if f[k]]
        if f["nls"]:
            out.append("CYAML_FLAG_POINTER_NULL_STR")
        elif f["nul"]:
            out.append("CYAML_FLAG_POINTER_NULL")
        elif ptr:
            out.append("CYAML_FLAG_POINTER")
        self.r.shuffle(out)
        return " | ".join(out) or "CYAML_FLAG_DEFAULT"

    def cb(self, t):
        return {"INT": "int", "ENUM": "int", "FLAGS": "int", "UINT": "uint", "BITFIELD": "uint", "FLOAT": "float", "STRING": "string",
                "MAPPING": "mapping", "SEQUENCE": "sequence", "SEQUENCE_FIXED": "sequence"}[t["t"]]

    def table(self, i):
        """(name, length)"""
        t = self.s[i]
        n = len(t["strs"] or t["bits"])
        nm = self.name("T", i)
        if n == 0:
            return "NULL", "0"
        return nm, "CYAML_ARRAY_LEN(%s)" % nm if self.r.random() < 0.8 else str(n)

    def limit(self, v):
        return "CYAML_UNLIMITED" if v == 0xFFFFFFFF else str(v)

    def braces(self, i):
        """The type's own part of the schema value, in full."""
        t = self.s[i]
        k, out = t["t"], []
        if t["cb"] and k not in ("BOOL", "IGNORE"):
            out.append(".validation_cb = e->cb_" + self.cb(t))
        if k == "INT":
            out += [".min = " + i64(t["min"]), ".max = " + i64(t["max"]), ".missing = " + i64(t["miss"])]
        elif k == "UINT":
            out += [".min = " + u64(t["min"]), ".max = " + u64(t["max"]), ".missing = " + u64(t["miss"])]
        elif k == "BOOL":
            out.append(".missing = %d" % (t["miss"] != 0))
        elif k == "FLOAT":
            out.append(".missing = %r" % t["fm"])
        elif k == "STRING":
            out += [".min = %d" % t["smin"], ".max = " + self.limit(t["smax"])]
            if t["sm"] is not None:
                out.append(".missing = " + cstr(t["sm"]))
        elif k == "MAPPING":
            out.append(".fields = " + self.name("F", i))
            if t["mb"]:
                out.append(".missing = e->st[%d]" % (t["mb"] - 3))
        elif k in ("SEQUENCE", "SEQUENCE_FIXED"):
            out += [".entry = e->ty[%d]" % t["ent"], ".min = %d" % t["smin"], ".max = " + self.limit(t["smax"])]
            if t["mb"]:
                out.append(".missing = e->st[%d]" % (t["mb"] - 3))
            if t["mc"]:
                out.append(".missing_count = %d" % t["mc"])
        else:
            nm, n = self.table(i)
            out += [".%s = %s" % ("bitdefs" if k == "BITFIELD" else "strings", nm), ".count = " + n, ".missing = " + (u64 if k == "BITFIELD" else i64)(t["miss"])]
        return "{ " + ", ".join(out) + " }"

    def plain(self, t):
        """Has it nothing that the short macros do not say?"""
        k = t["t"]
        if t["cb"] or t["miss"] or t["mb"] or t["mc"] or t["sm"] is not None or (k == "FLOAT" and t["fm"]):
            return False
        return not (k in ("INT", "UINT") and (t["min"] or t["max"]))

    def value(self, i):
        t = self.s[i]
        k = t["t"]
        ptr = t["fl"]["ptr"]
        fl, B = self.flags(t, ptr), self.name("B", i)
        if k == "IGNORE":
            return "{ .type = CYAML_IGNORE, .flags = %s }" % fl
        if not self.plain(t) or self.r.random() < 0.1:
            return "{ CYAML_VALUE(%s, %s, %s, %s) }" % (k, fl, B, self.braces(i))
        args = [fl, B] + self.args(i, True)
        return "{ CYAML_VALUE_%s(%s) }" % (k, ", ".join(args))

    def args(self, i, value):
        t = self.s[i]
        k = t["t"]
        if k in ("ENUM", "FLAGS", "BITFIELD"):
            return list(self.table(i))
        if k == "STRING":
            return [str(t["smin"])] + ([self.limit(t["smax"])] if value or t["fl"]["ptr"] else [])
        if k == "MAPPING":
            return [self.name("F", i)]
        if k == "SEQUENCE":
            return ["e->ty[%d]" % t["ent"], str(t["smin"]), self.limit(t["smax"])]
        if k == "SEQUENCE_FIXED":
            return ["e->ty[%d]" % t["ent"], str(t["smax"])]
        return []

    def field(self, i, j):
        f = self.s[i]["fields"][j]
        t = self.s[f["ty"]]
        k, ptr = t["t"], t["fl"]["ptr"]
        key = cstr(f["key"])
        st = "struct " + self.name("S", i)
        if k == "IGNORE":
            return "CYAML_FIELD_IGNORE(%s, %s)" % (key, self.flags(t, ptr))
        seq = k in ("SEQUENCE", "SEQUENCE_FIXED")
        # the flag that the macro sets or clears of itself may be there or not
        fl = self.flags(t, ptr if seq else self.r.random() < 0.4)
        short = self.plain(t) and self.r.random() < 0.9 and not (k == "STRING" and not ptr and t["smax"] != t["sz"] - 1)
        own = k == "SEQUENCE" and self.count(i, j) != "m%d_count" % j
        head = [key, fl, st, "m%d" % j]
        if short:
            if own:
                return "CYAML_FIELD_SEQUENCE_COUNT(%s)" % ", ".join(head + [self.count(i, j)] + self.args(f["ty"], False))
            return "CYAML_FIELD_%s%s(%s)" % (k, "_PTR" if ptr and not seq else "", ", ".join(head + self.args(f["ty"], False)))
        if own:
            return "CYAML_FIELD_PTR_COUNT(%s)" % ", ".join([k] + head + [self.count(i, j), self.braces(f["ty"])])
        return "CYAML_FIELD%s(%s)" % ("_PTR" if ptr or seq else "", ", ".join([k] + head + [self.braces(f["ty"])]))

    def text(self):
        s = self.s
        for i in range(1, len(s.types) + 1):
            self.declare(i)
        for i, t in enumerate(s.types, 1):
            if t["t"] == "MAPPING":
                self.struct(i)
        self.w("static void build%d(struct macro_env *e)", self.n)
        self.w("{")
        self.w("\tfor (int i = 1; i <= %d; i++) e->ty[i] = e->alloc(e->scn, sizeof **e->ty);", len(s.types))
        for i, t in enumerate(s.types, 1):
            if t["t"] == "MAPPING":
                self.w("\tcyaml_schema_field_t *%s = e->alloc(e->scn, %d * sizeof(cyaml_schema_field_t));", self.name("F", i), len(t["fields"]) + 1)
            if t["strs"]:
                self.w("\tstatic const cyaml_strval_t %s[] = { %s };", self.name("T", i),
                       ", ".join("{ %s, %s }" % (cstr(n), i64(v)) for n, v in t["strs"]))
            if t["bits"]:
                self.w("\tstatic const cyaml_bitdef_t %s[] = { %s };", self.name("T", i),
                       ", ".join("{ .name = %s, .offset = %d, .bits = %d }" % (cstr(n), o, w) for n, o, w in t["bits"]))
        for i, t in enumerate(s.types, 1):
            self.w("\t{ const cyaml_schema_value_t v = %s;", self.value(i))
            self.w("\t  memcpy(e->ty[%d], &v, sizeof v); e->note(e->ty[%d], %d); }", i, i, i)
            if t["t"] == "MAPPING":
                F = self.name("F", i)
                self.w("\t{ const cyaml_schema_field_t f[] = {")
                for j in range(len(t["fields"])):
                    self.w("\t\t%s,", self.field(i, j))
                self.w("\t\tCYAML_FIELD_END };")
                self.w("\t  memcpy(%s, f, sizeof f);", F)
                for j, f in enumerate(t["fields"]):
                    self.w("\t  e->note(&%s[%d].value, %d);", F, j, f["ty"])
                self.w("\t}")
        self.w("}")
        return "\n".join(self.out) + "\n"


def unit(scns, table):
    """One C file for several scenarios."""
    out = ["#include \"macros.h\"\n"]
    for n, s in enumerate(scns):
        out.append(Source(s, n).text())
    out.append("const struct macro_entry %s[] = {\n%s\t{ NULL, NULL } };\n"
               % (table, "".join("\t{ \"%s\", build%d },\n" % (s.id, n) for n, s in enumerate(scns))))
    return "\n".join(out)


def index(tables):
    return """#include "macros.h"
%s
bool macro_schemas(const char *id, struct macro_env *e)
{
	static const struct macro_entry *all[] = { %s, NULL };
	for (int i = 0; all[i]; i++)
		for (const struct macro_entry *m = all[i]; m->id; m++)
			if (!strcmp(m->id, id)) { m->build(e); return true; }
	return false;
}
""" % ("\n".join("extern const struct macro_entry %s[];" % t for t in tables), ", ".join(tables))
