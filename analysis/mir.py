"""Loads a mirdump JSON file and pretty-prints it."""
import json


class Dump:
    def __init__(self, path):
        d = json.load(open(path))
        self.d = d
        self.types = d["types"]
        self.bodies = d["bodies"]
        self.fns = d["fns"]
        self.coroutines = d["coroutines"]
        self.adts = {a["path"]: a for a in d["adts"]}
        self.consts = {c["path"]: c for c in d["consts"]}
        self.impls = d["impls"]
        self.by_path = {}
        for f in self.fns:
            self.by_path.setdefault(f["path"], []).append(f)
        self.debug = d["debug_assertions"]

    def fn(self, path):
        r = self.by_path.get(path)
        return r[0] if r else None

    def ts(self, i):
        return self.types[i]["s"]

    def find(self, **kw):
        return [f for f in self.fns if all(f.get(k) == v for k, v in kw.items())]

    def trait_fn(self, selfpath, trait, name):
        """The function of an impl of `trait` for the ADT `selfpath`."""
        for f in self.fns:
            if f.get("name") == name and f.get("trait") == trait and "self" in f:
                if self.types[f["self"]].get("path") == selfpath:
                    return f
        return None

    def inherent(self, selfpath):
        r = []
        for f in self.fns:
            if "self" in f and "trait" not in f and self.types[f["self"]].get("path") == selfpath:
                r.append(f)
        return r

    # -- printing
    def pplace(self, p):
        s = "_%d" % p[0]
        for e in p[1]:
            if e == "*": s = "(*%s)" % s
            elif e == "cast": s += "~"
            elif e[0] == "f": s += ".%d" % e[1]
            elif e[0] == "i": s += "[_%d]" % e[1]
            elif e[0] == "c": s += "[%s%d of %d]" % ("-" if e[3] else "", e[1], e[2])
            elif e[0] == "s": s += "[%d..%s%d]" % (e[1], "-" if e[3] else "", e[2])
            elif e[0] == "d": s += " as v%d" % e[1]
        return s

    def pconst(self, k):
        c = k["c"]
        if c == "int": return "%s:%s" % (k["v"], self.ts(k["ty"]))
        if c == "fn":
            ca = k["callee"]
            return "%s%s" % (ca.get("rpath") or ca["path"], "#%d" % ca["inst"] if "inst" in ca else "(%s)" % ca.get("kind"))
        if c in ("str", "bytes"): return repr(k["v"])
        if c == "adt": return "%s::v%d(%s)" % (self.ts(k["ty"]), k["variant"], ", ".join(map(self.pconst, k["fields"])))
        if c == "tuple": return "(%s)" % ", ".join(map(self.pconst, k["fields"]))
        if c == "ref": return "&" + self.pconst(k["v"])
        return "%s<%s>%s" % (c, self.ts(k["ty"]) if "ty" in k else "", k.get("path", ""))

    def pop(self, o):
        if o["o"] in ("copy", "move"): return o["o"] + " " + self.pplace(o["p"])
        if o["o"] == "const": return self.pconst(o["k"])
        return "rtcheck " + o["which"]

    def prv(self, r):
        k = r["r"]
        if k == "use": return self.pop(r["x"])
        if k == "ref": return "&%s%s" % ("mut " if r["mut"] else "", self.pplace(r["p"]))
        if k == "bin": return "%s(%s, %s)" % (r["op"], self.pop(r["l"]), self.pop(r["rr"]))
        if k == "un": return "%s(%s)" % (r["op"], self.pop(r["x"]))
        if k == "cast": return "%s as %s (%s)" % (self.pop(r["x"]), self.ts(r["to"]), r["kind"])
        if k == "discr": return "discr(%s)" % self.pplace(r["p"])
        if k == "agg": return "%s %s v%d [%s]" % (r["kind"], self.ts(r["ty"]), r["variant"], ", ".join(map(self.pop, r["xs"])))
        if k == "repeat": return "[%s; %s]" % (self.pop(r["x"]), r["n"])
        return json.dumps(r)

    def pbody(self, b):
        out = ["fn %s  args=%s" % (b.get("path"), [self.ts(a) for a in b.get("args", [])])]
        for i, l in enumerate(b["locals"]):
            nm = [n for (x, n) in b["names"] if x == i]
            out.append("  let _%d: %s %s%s" % (i, self.ts(l), nm or "", " arg" if 0 < i <= b["argc"] else ""))
        for i, bl in enumerate(b["blocks"]):
            if bl["cleanup"]: continue
            out.append(" bb%d:" % i)
            for s in bl["ss"]:
                if s["s"] == "=": out.append("   %s = %s" % (self.pplace(s["p"]), self.prv(s["r"])))
                else: out.append("   " + json.dumps(s))
            t = bl["t"]
            if t["t"] == "call":
                out.append("   %s = call %s(%s) -> %s   // %s" % (self.pplace(t["dest"]), self.pop(t["f"]), ", ".join(map(self.pop, t["args"])), t["to"], t["at"]))
            elif t["t"] == "switch":
                out.append("   switch %s %s else %s" % (self.pop(t["x"]), t["ts"], t["else"]))
            else: out.append("   " + json.dumps(t))
        return "\n".join(out)


if __name__ == "__main__":
    import sys
    d = Dump(sys.argv[1])
    for pat in sys.argv[2:]:
        for b in d.bodies + d.coroutines:
            if pat in b["path"]: print(d.pbody(b)); print()
