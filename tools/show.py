"""Prints a scenario from a JSON file of scenarios: show.py FILE ID"""
import json, sys
import os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from model import *


def show(s, trace=None, out=print):
    out(s.id, "cfg", [k for k in s.cfg if s.cfg[k]], "level", s.level, "log", s.haslog, "ro", s.ro)
    for i, t in enumerate(s.types):
        d = [t["t"], "sz=%d" % t["sz"]] + [k for k in t["fl"] if t["fl"][k]]
        if t["cb"]: d.append("cb")
        if t["t"] in ("INT", "UINT"): d.append("[%d..%d]" % (t["min"], t["max"]))
        if t["t"] in ("STRING", "SEQUENCE", "SEQUENCE_FIXED"): d.append("len %d..%d" % (t["smin"], t["smax"]))
        if t["miss"] or t["sm"] is not None or t["mb"] or t["fm"]: d.append("default %r" % ((t["miss"], t["sm"], t["mb"], t["mc"], t["fm"]),))
        if t["strs"]: d.append(str(t["strs"]))
        if t["bits"]: d.append(str(t["bits"]))
        if t["ent"]: d.append("entry %d" % t["ent"])
        for f in t["fields"]: d.append("\n      %r: type %d at %d count at %d/%d" % (f["key"], f["ty"], f["off"], f["coff"], f["csz"]))
        out("  type", i + 1, *d)
    for i, b in enumerate(s.statics): out("  static", i + 3, b)
    for i, d in enumerate(s.docs): out("  doc", i, repr(d) if len(d) < 2000 else repr(d[:2000]) + "...")
    for i, o in enumerate(s.ops): out("  op", i + 1, o["k"], o["a"], {k: v for k, v in o.items() if k not in "ka"})


if __name__ == "__main__":
    j = json.load(open(sys.argv[1]))
    j = j.get("scenario", j) if len(sys.argv) < 3 else j[sys.argv[2]]
    show(Scenario.from_json(j))
    if len(sys.argv) > 4:
        t = json.load(open(sys.argv[3]))[sys.argv[2] + "#0"]
        op = t["ops"][int(sys.argv[4]) - 1]
        def sh(v):
            if isinstance(v, list) and v and all(isinstance(x, int) for x in v) and max(v) < 256: return repr(bytes(v))
            if isinstance(v, list): return "[" + ", ".join(sh(x) for x in v) + "]"
            if isinstance(v, dict): return "{" + ", ".join(k + ":" + sh(x) for k, x in v.items()) + "}"
            return repr(v)
        print(op["k"], {k: v for k, v in op.items() if k not in "ok"})
        for k, v in op["o"].items(): print("   ", k, sh(v)[:3000])
        print("heap", sh(t["heaps"][op["o"]["h"] - 1])[:3000] if op["o"]["h"] else "-")
        print("slots", op["o"]["sl"])
