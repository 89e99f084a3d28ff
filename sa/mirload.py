"""Loads the JSON dump of the type-checked program produced by driver/mirx."""
import json, re


def strip_generics(p):
    """tools::Foo::<T>::bar -> tools::Foo::bar, keeping <X as Y> groups."""
    out, i, n = [], 0, len(p)
    while i < n:
        if p.startswith("::<", i):
            depth, j = 0, i + 2
            while j < n:
                if p[j] == "<":
                    depth += 1
                elif p[j] == ">" and p[j - 1] != "-":
                    depth -= 1
                    if depth == 0:
                        break
                j += 1
            i = j + 1
            continue
        out.append(p[i])
        i += 1
    return "".join(out)


class Bodies(dict):
    """bodies by path; `path@@n` is an instance of a generic body, made on demand"""
    def __init__(self, prog):
        super().__init__()
        self.prog = prog

    def __contains__(self, p):
        return dict.__contains__(self, p.split("@@")[0])

    def __missing__(self, p):
        base, _, key = p.partition("@@")
        if not key or not dict.__contains__(self, base):
            raise KeyError(p)
        return self.prog.instance(base, int(key))

    def get(self, p, default=None):
        return self[p] if p in self else default


class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.types = d["types"]
        self.adts = d["adts"]
        self.bodies = Bodies(self)
        self._insts, self._instkeys, self._instmemo = [], {}, {}
        self._tykeys = None
        for p, b in d["bodies"].items():
            b["path"] = p
            self.bodies[p] = b
            for i, q in enumerate(b["promoted"]):
                q["path"] = "%s[promoted %d]" % (p, i)
        self.impls = d["impls"]
        self.statics = d["statics"]
        self.implmap = {}
        for im in self.impls:
            for m, p in im["methods"].items():
                self.implmap.setdefault((im["trait"], m), []).append((im["self"], p))

    # ---------------------------------------------------- instances of generic bodies
    def inst_path(self, path, args):
        """the path of `path` with the generic arguments of a call, or `path` itself"""
        base = path.split("@@")[0]
        b = dict.get(self.bodies, base)
        names = b.get("generics") if b else None
        if not names or args is None or len(args) < len(names):
            return path
        sub = {}
        for i, (n, a) in enumerate(zip(names, args)):
            if "const" in a:
                sub[n] = ("c", a["const"])
                sub[(i, n)] = sub[n]
            elif "ty" in a:
                if self.types[a["ty"]]["k"] == "param":
                    return path
                sub[(i, n)] = ("t", a["ty"])
                sub.setdefault(n, ("t", a["ty"]))
            else:
                return path
        key = tuple(sorted(sub.items(), key=str))
        if key not in self._instkeys:
            self._instkeys[key] = len(self._insts)
            self._insts.append(sub)
        return "%s@@%d" % (base, self._instkeys[key])

    def instance(self, base, n):
        m = self._instmemo.get((base, n))
        if m is None:
            sub = self._insts[n]
            b = dict.__getitem__(self.bodies, base)
            m = self._instmemo[(base, n)] = self._walk({k: v for k, v in b.items() if k != "path"}, sub, n)
            m["path"] = b["path"]
            m["generics"] = []
            for i, q in enumerate(m["promoted"]):
                q["path"] = "%s[promoted %d]" % (base, i)
        return m

    def _subty(self, t, sub, n):
        d = self.types[t]
        k = d["k"]
        if k == "param":
            r = sub.get((d.get("index"), d["name"])) or sub.get(d["name"])
            return r[1] if r and r[0] == "t" else t
        memo = self._instmemo.setdefault(("ty", n), {})
        if t in memo:
            return memo[t]
        memo[t] = t
        e = {}
        for a, v in d.items():
            if a == "elem":
                e[a] = self._subty(v, sub, n)
            elif a in ("elems", "upvars"):
                e[a] = [self._subty(x, sub, n) for x in v]
            elif a in ("args", "len"):
                e[a] = self._walk(v, sub, n)
            else:
                e[a] = v
        if e != d:
            for name, r in sub.items():
                if isinstance(name, tuple):
                    txt = str(r[1]) if r[0] == "c" else self.types[r[1]]["s"]
                    e["s"] = re.sub(r"(?<![\w])%s(?![\w])" % re.escape(name[1]), lambda m: txt, e["s"])
            if self._tykeys is None:
                self._tykeys = {d["s"]: i for i, d in enumerate(self.types)}
            i = self._tykeys.get(e["s"])
            if i is None:
                self.types.append(e)
                i = self._tykeys[e["s"]] = len(self.types) - 1
            memo[t] = i
        return memo[t]

    def _walk(self, x, sub, n):
        if isinstance(x, list):
            if len(x) == 3 and x[0] == "." and isinstance(x[2], int):
                return [x[0], x[1], self._subty(x[2], sub, n)]
            return [self._walk(y, sub, n) for y in x]
        if not isinstance(x, dict):
            return x
        if "cparam" in x:
            r = sub.get(x["cparam"])
            if r and r[0] == "c":
                return {"t": x["t"], "int": r[1]} if "t" in x else {"const": r[1]}
        out = {}
        for k, v in x.items():
            if k in ("t", "ty", "self", "impl_self") and isinstance(v, int) and not isinstance(v, bool):
                out[k] = self._subty(v, sub, n)
            else:
                out[k] = self._walk(v, sub, n)
        if x.get("r") == "agg" and x.get("k") in ("closure", "coroutine") and "path" in x:
            b = dict.get(self.bodies, x["path"])
            if b is not None and b.get("generics"):
                out["path"] = "%s@@%d" % (x["path"], n)
        if "promoted" in x and "of" in x and isinstance(x["of"], str):
            b = dict.get(self.bodies, x["of"])
            if b is not None and b.get("generics"):
                out["of"] = "%s@@%d" % (x["of"], n)
        if "trait" in x and "self" in x and x.get("self") != out.get("self"):
            t = self.types[out["self"]]
            if t["k"] == "dyn":
                out["virtual"] = True
            else:
                for st, p in self.implmap.get((x["trait"], x.get("name")), []):
                    if (self.types[st]["s"] if isinstance(st, int) else str(st)) == t["s"]:
                        out["res"], out["res_local"] = p, True
        return out

    def ty(self, i):
        return self.types[i]

    def tstr(self, i):
        return self.types[i]["s"]

    def adt(self, path):
        return self.adts.get(path)


def fmt_place(p):
    s = "_%d" % p["l"]
    for e in p["p"]:
        if e[0] == "*":
            s = "*" + s
        elif e[0] == ".":
            s = "(%s).%d" % (s, e[1])
        elif e[0] == "as":
            s = "(%s as v%d)" % (s, e[1])
        elif e[0] == "[]":
            s = "%s[_%d]" % (s, e[1])
        else:
            s = "%s%s" % (s, e)
    return s


def fmt_op(o, P):
    if "copy" in o:
        return fmt_place(o["copy"])
    if "move" in o:
        return "move " + fmt_place(o["move"])
    if "const" in o:
        c = o["const"]
        if "fn" in c:
            return "fn " + c["fn"].get("path")
        return "const " + str({k: v for k, v in c.items() if k != "t"}) + ":" + P.tstr(c["t"])
    return str(o)


def fmt_rv(r, P):
    k = r["r"]
    if k == "use":
        return fmt_op(r["o"], P)
    if k == "ref":
        return ("&mut " if r.get("mut") else "&") + fmt_place(r["place"])
    if k == "cast":
        return "%s as %s (%s)" % (fmt_op(r["o"], P), P.tstr(r["t"]), r["kind"])
    if k == "bin":
        return "%s(%s, %s)" % (r["op"], fmt_op(r["a"], P), fmt_op(r["b"], P))
    if k == "un":
        return "%s(%s)" % (r["op"], fmt_op(r["a"], P))
    if k == "discr":
        return "discr(%s)" % fmt_place(r["place"])
    if k == "agg":
        return "agg %s %s v%s {%s}" % (r["k"], r.get("path", ""), r.get("variant", ""), ", ".join(fmt_op(x, P) for x in r["ops"]))
    if k == "repeat":
        return "[%s; %s]" % (fmt_op(r["o"], P), r["n"])
    return str(r)


def dump_body(b, P):
    print("fn", b["path"], "argc", b["argc"], b.get("upnames"))
    for i, l in enumerate(b["locals"]):
        print("  _%d: %s %s" % (i, P.tstr(l["t"]), l.get("name", "")))
    for i, bb in enumerate(b["blocks"]):
        if bb["cleanup"]:
            continue
        print(" bb%d:" % i)
        for s in bb["s"]:
            if s["s"] == "=":
                print("    %s = %s" % (fmt_place(s["p"]), fmt_rv(s["v"], P)))
            elif s["s"] == "dead" or s["s"] == "live":
                print("    %s _%s" % (s["s"], s["l"]))
            else:
                print("    ", s)
        t = bb["t"]
        k = t["k"]
        if k == "call":
            print("    %s = %s(%s) -> %s   [%s]" % (fmt_place(t["dest"]), fmt_op(t["f"], P), ", ".join(fmt_op(a, P) for a in t["args"]), t["to"], t["sp"]))
        elif k == "switch":
            print("    switch %s %s else %s" % (fmt_op(t["o"], P), t["vals"], t["else"]))
        elif k == "drop":
            print("    drop %s -> %s" % (fmt_place(t["p"]), t["to"]))
        elif k == "assert":
            print("    assert %s==%s %s -> %s" % (fmt_op(t["o"], P), t["expected"], t["msg"], t["to"]))
        else:
            print("    ", k, t.get("to"), t.get("dbg", ""))
    for q in b.get("promoted", []):
        dump_body(q, P)


if __name__ == "__main__":
    import sys
    P = Program(sys.argv[1])
    if len(sys.argv) < 3:
        for p, b in P.bodies.items():
            print(p, b["kind"], b["coroutine"], len(b["blocks"]), b["impl_trait"])
    else:
        dump_body(P.bodies[sys.argv[2]], P)
