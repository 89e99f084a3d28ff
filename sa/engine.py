"""Value-flow abstract interpreter over the dumped MIR.

Paths are enumerated symbolically over *provenance terms* (sa/terms.py); no
program is run and no path condition is handed to a solver.  Branch
feasibility is decided by the linear-inequality domain of terms.py, loops are
summarised by closed forms in the iteration counter."""
import sys, time
from .terms import *
from . import terms as T
from .mirload import Program, strip_generics

sys.setrecursionlimit(20000)


class Budget(Exception):
    pass


class Unsupported(Exception):
    pass


MOVED = mk("moved")
THIN = ("std::mem::MaybeUninit", "std::mem::ManuallyDrop", "std::mem::MaybeDangling")
MANY = 256           # outcomes of one call kept apart


def eliminate(L, facts):
    """use facts that come in both directions as equalities between opaque atoms, then tighten"""
    lf = [lin_of(f) for f in facts]
    have = {(c, tuple(sorted((a.id, k) for a, k in d.items()))) for c, d in lf}
    c, d = lin_of(L)
    done = False
    work = [(c, dict(d))] + [(x, dict(y)) for x, y in lf]
    for ec, ed in lf:
        if not ed or (-ec, tuple(sorted((a.id, -k) for a, k in ed.items()))) not in have:
            continue
        piv = [a for a, k in ed.items() if abs(k) == 1]
        if not piv:
            continue
        a = max(piv, key=lambda x: x.id)
        k = ed[a]
        done = True
        nw = []
        for xc, xd in work:
            m = xd.get(a, 0)
            if m:
                f = -m * k          # k is +-1
                xc = xc + f * ec
                nd = dict(xd)
                for b, n in ed.items():
                    nd[b] = nd.get(b, 0) + f * n
                    if nd[b] == 0:
                        del nd[b]
                xd = nd
            nw.append((xc, xd))
        work = nw
        break
    if not done:
        return None
    out = []
    for xc, xd in work:
        xc, xd = tighten(xc, xd)
        out.append(mklin(xc, xd))
    return out[0], [f for f in out[1:] if f.k != "int"]


class State:
    __slots__ = ("cells", "lin", "eqs", "bools", "vars", "alls", "trace", "held", "epochs",
                 "dbver", "dbover", "ctr", "unk", "await_ok")

    def __init__(self):
        self.cells = {}
        self.lin = []
        self.eqs = {}
        self.bools = {}
        self.vars = {}
        self.alls = ()
        self.trace = None
        self.held = ()
        self.epochs = {}
        self.dbver = {}
        self.dbover = {}
        self.ctr = 0
        self.unk = ()

    def copy(self):
        s = State.__new__(State)
        s.cells = dict(self.cells)
        s.lin = list(self.lin)
        s.eqs = dict(self.eqs)
        s.bools = dict(self.bools)
        s.vars = dict(self.vars)
        s.alls = self.alls
        s.trace = self.trace
        s.held = self.held
        s.epochs = dict(self.epochs)
        s.dbver = dict(self.dbver)
        s.dbover = dict(self.dbover)
        s.ctr = self.ctr
        s.unk = self.unk
        return s

    # ---- events
    def ev(self, *e):
        self.trace = (self.trace, e)

    def events(self):
        out = []
        t = self.trace
        while t is not None:
            out.append(t[1])
            t = t[0]
        out.reverse()
        return out

    def taint(self, why):
        if why not in self.unk:
            self.unk = self.unk + (why,)

    # ---- linear facts
    def norm(self, L):
        if not self.eqs:
            return L
        for _ in range(8):
            c, d = lin_of(L)
            hit = [a for a in d if a in self.eqs]
            if not hit:
                return L
            out = integer(c)
            for a, k in d.items():
                out = add(out, scale(self.eqs.get(a, a), k))
            L = out
        return L

    def prove(self, L, depth=4):
        """L >= 0 entailed?"""
        L = self.norm(L)
        c, d = lin_of(L)
        if not d:
            return c >= 0
        lo, hi = lin_range(L)
        if lo is not None and lo >= 0:
            return True
        c2, d2 = tighten(c, d)
        L = mklin(c2, d2)
        facts = self._relevant(d2)
        if prove_ge0(L, facts, depth):
            return True
        # a product or rounded quotient inside L: use its defining facts
        extra = []
        for a in list(d2) + [x for f in facts for x in lin_of(f)[1]]:
            extra.extend(defining(a))
        if extra:
            facts = facts + [self.norm(e) for e in extra]
            if prove_ge0(L, facts, depth):
                return True
        r = eliminate(L, facts)
        return r is not None and prove_ge0(r[0], r[1], depth)

    def _relevant(self, d):
        # facts connected with the atoms of d
        want = set(d)
        facts = self.lin
        out = []
        rest = facts
        for _ in range(3):
            nxt = []
            grew = False
            for f in rest:
                fd = lin_of(f)[1]
                if any(a in want for a in fd):
                    out.append(f)
                    for a in fd:
                        if a not in want:
                            want.add(a)
                            grew = True
                else:
                    nxt.append(f)
            rest = nxt
            if not grew:
                break
        return out[:40]

    def add_lin(self, L):
        L = self.norm(L)
        c, d = lin_of(L)
        if not d:
            return c >= 0
        c, d = tighten(c, d)
        L = mklin(c, d)
        lo, hi = lin_range(L)
        if hi is not None and hi < 0:
            return False
        if lo is not None and lo >= 0:
            return True
        if self.prove(sub(integer(-1), L), 3):
            return False
        if L not in self.lin:
            self.lin.append(L)
        return True

    def add_eq(self, L):
        L = self.norm(L)
        c, d = lin_of(L)
        if not d:
            return c == 0
        if not self.add_lin(L) or not self.add_lin(scale(L, -1)):
            return False
        # solve for an atom with coefficient +-1
        g = 0
        from math import gcd
        for k in d.values():
            g = gcd(g, abs(k))
        if g > 1:
            if c % g:
                return False
            c //= g
            d = {a: k // g for a, k in d.items()}
        cands = sorted(((0 if a.k in ("len", "sym", "elem", "fld", "frombe", "rem", "k") else 1, -a.id, a)
                        for a, k in d.items() if abs(k) == 1), key=lambda x: x[:2])
        for _, _, a in cands:
            if any(x is not a and a in atoms(x) for x in d):
                continue
            if a.k == "rem" and len(d) == 1 and c == 0:
                # X % m == 0   ==>   X = m*q
                X, m = a.a
                if m.k == "int":
                    q = mk("div", X, m)
                    return self.add_eq(sub(self.norm(X), scale(q, m.a[0])))
            k = d[a]
            rest = mklin(c, {x: n for x, n in d.items() if x is not a})
            val = scale(rest, -1) if k == 1 else rest
            self.eqs[a] = val
            self.eqs = {x: self._subst1(y, a, val) for x, y in self.eqs.items()}
            old, self.lin = self.lin, []
            for f in old:
                if not self.add_lin(f):
                    return False
            # keep knowledge of the range of the solved atom
            lo, hi = atom_range(a)
            if lo is not None and not self.add_lin(sub(val, integer(lo))):
                return False
            if hi is not None and not self.add_lin(sub(integer(hi), val)):
                return False
            break
        return True

    def _subst1(self, L, a, val):
        c, d = lin_of(L)
        if a not in d:
            return L
        k = d.pop(a)
        return add(mklin(c, d), scale(val, k))

    # ---- boolean facts
    def truth(self, c):
        if c.k == "bool":
            return c.a[0]
        if c in self.bools:
            return self.bools[c]
        if c.k == "not":
            t = self.truth(c.a[0])
            return None if t is None else not t
        if c.k == "and":
            a, b = self.truth(c.a[0]), self.truth(c.a[1])
            if a is False or b is False:
                return False
            if a and b:
                return True
            return None
        if c.k == "nn":
            if self.prove(c.a[0]):
                return True
            if self.prove(sub(integer(-1), c.a[0])):
                return False
            return None
        if c.k == "eqz":
            L = self.norm(c.a[0])
            if lin_of(L)[1] == {}:
                return lin_of(L)[0] == 0
            z = eqz(L)
            if z.k == "bool":
                return z.a[0]
            if z in self.bools:
                return self.bools[z]
            if self.prove(sub(L, integer(1))) or self.prove(sub(integer(-1), L)):
                return False
            if self.prove(L) and self.prove(scale(L, -1)):
                return True
            return None
        if c.k == "eq":
            for x, y in (c.a, c.a[::-1]):
                if x.k == "adt" and y.k != "adt":
                    i = self.variant(y)
                    if i is not None and i != x.a[1]:
                        return False
                    if i is not None and not x.a[2]:
                        return True
            return None
        return None

    def assume(self, c, val):
        """add the fact; returns False when contradictory"""
        if c.k == "bool":
            return c.a[0] == val
        t = self.truth(c)
        if t is not None:
            return t == val
        if c.k == "not":
            return self.assume(c.a[0], not val)
        self.bools[c] = val
        if c.k == "and":
            if val:
                return self.assume(c.a[0], True) and self.assume(c.a[1], True)
            a, b = self.truth(c.a[0]), self.truth(c.a[1])
            if a:
                return self.assume(c.a[1], False)
            if b:
                return self.assume(c.a[0], False)
            return True
        if c.k == "nn":
            L = c.a[0]
            return self.add_lin(L if val else sub(integer(-1), L))
        if c.k == "eqz":
            L = c.a[0]
            if val:
                return self.add_eq(L)
            if self.prove(L):
                return self.add_lin(sub(L, integer(1)))
            if self.prove(scale(L, -1)):
                return self.add_lin(sub(integer(-1), L))
            return True
        if c.k == "eq" and val:
            a, b = c.a
            for x, y in ((a, b), (b, a)):
                if x.k == "adt" and y.k != "adt":
                    return self.assume_var(y, x.a[1])
        return True

    def variant(self, v):
        if v.k == "adt":
            return v.a[1]
        r = self.vars.get(v)
        if r is not None:
            return r
        if v.k == "cmp":
            a, b = v.a
            if is_int(a) or is_int(b):
                if self.prove(sub(sub(b, a), integer(1))):
                    return 0
                if self.prove(sub(sub(a, b), integer(1))):
                    return 2
                if self.truth(ieq(a, b)):
                    return 1
        return None

    def assume_var(self, v, i):
        if v.k in ("cmp", "revord"):
            for e, val in self.bools.items():       # known not to be this one
                if e.k == "eq" and v in e.a:
                    o = e.a[1] if e.a[0] is v else e.a[0]
                    if o.k == "adt" and (o.a[1] == i) is not val:
                        return False
        cur = self.variant(v)
        if cur is not None:
            return cur == i
        self.vars[v] = i
        if v.k == "iokind":
            self.ev("kind", v, i)
        if v.k == "cmp":
            a, b = v.a
            if is_int(a) or is_int(b):
                return self.assume((lt(a, b), ieq(a, b), lt(b, a))[i], True)
            if i == 1:
                return self.assume(eq(a, b), True)
            return self.assume(eq(a, b), False)
        if v.k == "revord":
            return self.assume_var(v.a[0], 2 - i)
        return True


_def_cache = {}


def defining(a):
    r = _def_cache.get(a)
    if r is not None:
        return r
    out = ()
    if a.k in ("div", "rem") and a.a[1].k == "int" and a.a[1].a[0] > 0:
        n = a.a[1].a[0]
        X = a.a[0]
        q = mk("div", X, a.a[1])
        rr = mk("rem", X, a.a[1])
        e = sub(X, add(scale(q, n), rr))
        # n*q + r == X, 0 <= r < n  (X >= 0)
        out = (e, scale(e, -1), rr, sub(integer(n - 1), rr), q)
    elif a.k == "mul":
        fs = a.a[0]
        if len(fs) == 2:
            x, y = fs
            lx, hx = atom_range(x)
            ly, hy = atom_range(y)
            o = []
            if lx is not None and lx >= 1 and ly is not None and ly >= 0:
                o.append(sub(a, y))
            if ly is not None and ly >= 1 and lx is not None and lx >= 0:
                o.append(sub(a, x))
            if hx is not None and ly is not None and ly >= 0:
                o.append(sub(scale(y, hx), a))
            out = tuple(o)
    elif a.k == "pow2":
        out = (sub(a, add(a.a[0], integer(1))),)
    _def_cache[a] = out
    return out


class Frame:
    __slots__ = ("id", "body", "depth", "locals", "subst")


class Eng:
    def __init__(self, P, prims=None, max_steps=400000, max_depth=24, deadline=None, fork_faults=True):
        self.P = P
        self.prims = dict(prims or {})
        self.max_steps = max_steps
        self.max_depth = max_depth
        self.steps = 0
        self.deadline = deadline
        self.fork_faults = fork_faults
        self.visited = set()      # local functions interpreted
        self.callsites = set()
        self.loops = set()
        self.fns = {}             # id -> callee json
        self.notes = set()        # unmodelled callees
        self.frame_ids = {}
        self.hooks = []
        self._stack = []
        self.keep_panics = True
        self.dropped_panics = 0
        self.seq_locks = True
        self.concrete_shapes = False   # unroll loops whose every iteration is decided
        from . import models
        self.models = models.MODELS
        self.modfall = models.fallback
        self.mod = models

    # -------------------------------------------------------------- types
    def ty(self, t):
        return self.P.types[t]

    def peel(self, t):
        """through references and owning pointers"""
        for _ in range(10):
            d = self.P.types[t]
            if d["k"] in ("ref", "ptr"):
                t = d["elem"]
            elif d["k"] == "adt" and d["path"] in ("std::boxed::Box", "std::sync::Arc", "std::rc::Rc",
                                                   "std::pin::Pin", "std::borrow::Cow", "std::mem::ManuallyDrop") and \
                    d["args"] and "ty" in d["args"][0]:
                t = d["args"][0]["ty"]
            elif d["k"] == "adt" and d["path"] == "std::borrow::Cow" and len(d["args"]) > 1:
                t = d["args"][1]["ty"]
            else:
                return t
        return t

    def typed(self, v, t):
        """record what the static type says about an opaque term"""
        if t is None or v.k in ("int", "lin", "bool", "adt", "tup", "ref", "arr", "bytes", "seq"):
            return v
        d = self.P.types[self.peel(t)]
        k = d["k"]
        if k == "uint":
            b = d["bits"]
            RANGE.setdefault(v, (0, (1 << b) - 1))
        elif k == "int":
            b = d["bits"]
            RANGE.setdefault(v, (-(1 << (b - 1)), (1 << (b - 1)) - 1))
        elif k == "adt" and d["path"] == "primitive_types::U256":
            RANGE.setdefault(v, (0, T.U256))
        elif k == "adt" and d["path"] == "num_bigint::BigUint":
            RANGE.setdefault(v, (0, None))
        elif k == "array":
            n = d["len"].get("const") if isinstance(d["len"], dict) else d["len"]
            if isinstance(n, int):
                ALEN.setdefault(v, n)
        elif k == "str" or k == "adt" and d["path"].endswith("string::String"):
            TEXT.add(v)
        return v

    def int_type(self, t):
        d = self.P.types[self.peel(t)]
        if d["k"] == "uint":
            return (0, (1 << d["bits"]) - 1)
        if d["k"] == "int":
            return (-(1 << (d["bits"] - 1)), (1 << (d["bits"] - 1)) - 1)
        if d["k"] == "adt" and d["path"] == "primitive_types::U256":
            return (0, T.U256)
        return None

    def fname(self, t, variant, i):
        d = self.P.types[self.peel(t)]
        if d["k"] == "adt":
            a = self.P.adts.get(d["path"])
            if a and variant < len(a["variants"]):
                fs = a["variants"][variant]["fields"]
                if i < len(fs):
                    return fs[i]["name"]
        return i

    def nfields(self, t, variant=0):
        d = self.P.types[self.peel(t)]
        if d["k"] == "adt":
            a = self.P.adts.get(d["path"])
            if a and variant < len(a["variants"]):
                return d["path"], a["kind"], len(a["variants"][variant]["fields"])
        if d["k"] == "tuple":
            return None, "tuple", len(d["elems"])
        return None, None, None

    # -------------------------------------------------------------- places
    def proj(self, st, v, t, e, variant, frame=None):
        """one projection of a value; returns (value, type, variant)"""
        k = e[0]
        if k == "*":
            d = self.ty(t) if t is not None else None
            nt = None
            if d is not None:
                if d["k"] in ("ref", "ptr"):
                    nt = d["elem"]
                elif d["k"] == "adt" and d["args"] and "ty" in d["args"][0]:
                    nt = d["args"][0]["ty"]
            return self.deref(st, v, nt), nt, None
        if k == ".":
            i, ft = e[1], e[2]
            if t is not None and self.ty(t)["k"] == "adt" and self.ty(t)["path"] in THIN:
                return v, ft, None
            return self.field(st, v, t, i, ft, variant), ft, None
        if k == "as":
            return v, t, e[1]
        if k == "[]":
            idx = self.read_local(st, frame, e[1])
            return self.elem_(st, v, idx, self.elem_ty(t)), self.elem_ty(t), None
        if k == "i":
            return self.elem_(st, v, e[1], self.elem_ty(t) if t is not None else None), \
                (self.elem_ty(t) if t is not None else None), None
        if k == "[c]":
            off, minlen, fromend = e[1], e[2], e[3]
            idx = sub(length(v), integer(off)) if fromend else integer(off)
            return self.elem_(st, v, idx, self.elem_ty(t)), self.elem_ty(t), None
        if k == "[..]":
            frm, to, fromend = e[1], e[2], e[3]
            end = sub(length(v), integer(to)) if fromend else integer(to)
            return slice_(v, integer(frm), sub(end, integer(frm))), t, None
        return mk("unk", "proj", str(e)), None, None

    def elem_ty(self, t):
        if t is None:
            return None
        d = self.ty(self.peel(t))
        if d["k"] in ("array", "slice"):
            return d["elem"]
        if d["k"] == "adt" and d["path"] == "std::vec::Vec" and d["args"] and "ty" in d["args"][0]:
            return d["args"][0]["ty"]
        return None

    def elem_(self, st, v, idx, et):
        v = self.whole(st, v)
        idx = st.norm(idx)
        r = elem(v, idx)
        if r.k == "elem" and r.a[0].k == "upd":
            r2 = self.read_upd(st, r.a[0], idx)
            if r2 is not None:
                r = r2
        if et is not None:
            self.typed(r, et)
        elif r.k == "elem" and r not in RANGE:
            pass
        return r

    def read_upd(self, st, u, idx):
        while u.k == "upd":
            c = st.truth(ieq(u.a[1], idx))
            if c is True:
                return u.a[2]
            if c is None:
                return mk("elem", u, idx)
            u = u.a[0]
        return elem(u, idx)

    def whole(self, st, v):
        """a value seen as a sequence, through guards"""
        if v.k == "guard":
            return self.guard_value(st, v)
        if v.k == "ref":
            return self.load_ref(st, v)
        return v

    def deref(self, st, v, t=None):
        if v.k == "ref":
            return self.load_ref(st, v)
        if v.k == "guard":
            return self.guard_value(st, v)
        c = st.cells.get(("anon", v))
        if c is not None:
            return c
        if t is not None:
            self.typed(v, t)
        return v

    def guard_value(self, st, g):
        key = ("lock", g.a[0])
        v = st.cells.get(key)
        if v is None:
            v = mk("lkval", g.a[0], integer(0))
            st.cells[key] = v
        return v

    def load_ref(self, st, r):
        key, path = r.a[0], r.a[1]
        v = st.cells.get(key)
        if v is None:
            if key[0] == "lock":
                v = self.guard_value(st, mk("guard", key[1], "w", integer(0)))
            elif key[0] == "anon":
                v = key[1]
            else:
                v = mk("unk", "dangling", str(key))
        t = None
        variant = None
        for e in path:
            if e[0] == "t":
                t = e[1]
                continue
            if e[0] == "v":
                variant = e[1]
                continue
            if e[0] == "f":
                ft = e[2]
                v = self.field(st, v, e[3], e[1], ft, variant)
                variant = None
            elif e[0] == "i":
                v = self.elem_(st, v, e[1], e[2])
            elif e[0] == "s":
                v = slice_(v, e[1], e[2])
            elif e[0] == "o":      # inside Option payload etc.
                v = self.payload(st, v, e[1], e[2])
        return v

    def field(self, st, v, t, i, ft, variant):
        if v.k == "adt":
            if variant is not None and v.a[1] != variant:
                return mk("unk", "variant", i)
            if i < len(v.a[2]):
                return self.typed(v.a[2][i], ft)
            return mk("unk", "field", i)
        if v.k == "tup":
            return self.typed(v.a[i], ft) if i < len(v.a) else mk("unk", "field", i)
        if v.k == "clos":
            return v.a[1][i] if i < len(v.a[1]) else mk("unk", "upvar", i)
        if v.k == "guard":
            v = self.guard_value(st, v)
            return self.field(st, v, t, i, ft, variant)
        if v.k == "ref":
            return self.field(st, self.load_ref(st, v), t, i, ft, variant)
        over = st.cells.get(("anon", v))
        if over is not None:
            return self.field(st, over, t, i, ft, variant)
        if t is not None:
            # Pin { pointer } and Box internals are transparent
            d = self.ty(t)
            if d["k"] == "adt" and d["path"] in ("std::pin::Pin", "std::boxed::Box", "std::ptr::Unique", "std::ptr::NonNull"):
                return v
            pt = self.ty(self.peel(t))
            if pt["k"] == "adt" and pt["path"] == "primitive_types::U256":
                if v.k == "u256c":
                    return self.mod.limbs_of(v)
                r = mk("limbs", v)
                ALEN.setdefault(r, 4)
                return r
        if variant is not None:
            r = mk("vf", v, variant, i)
        else:
            name = self.fname(t, 0, i) if t is not None else i
            r = mk("fld", v, name)
        return self.typed(r, ft)

    def payload(self, st, v, variant, i):
        if v.k == "adt":
            return v.a[2][i] if i < len(v.a[2]) else mk("unk", "payload", i)
        return mk("vf", v, variant, i)

    def read_local(self, st, frame, l):
        return st.cells.get((frame.id, l), None) or mk("unk", "uninit", l)

    def read_place(self, st, frame, pl):
        v = st.cells.get((frame.id, pl["l"]))
        t = frame.body["locals"][pl["l"]]["t"]
        if v is None:
            v = self.uninit(st, frame, pl["l"], t)
        variant = None
        for e in pl["p"]:
            v, t, variant = self.proj(st, v, t, e, variant, frame)
        return v

    def uninit(self, st, frame, l, t):
        d = self.ty(t)
        if d["k"] == "tuple" and not d["elems"]:
            return UNIT
        return mk("unk", "uninit", l)

    def resolve(self, st, frame, pl):
        """place -> (cell key, path)"""
        key = (frame.id, pl["l"])
        path = ()
        t = frame.body["locals"][pl["l"]]["t"]
        variant = None
        for e in pl["p"]:
            if e[0] == "*":
                v = self.load_ref(st, mk("ref", key, path)) if (path or key in st.cells) else mk("unk", "uninit", pl["l"])
                d = self.ty(t) if t is not None else {"k": "?"}
                nt = None
                if d["k"] in ("ref", "ptr"):
                    nt = d["elem"]
                elif d["k"] == "adt" and d["args"] and "ty" in d["args"][0]:
                    nt = d["args"][0]["ty"]
                if d["k"] == "adt":
                    # Box<T> owned in place
                    pass
                if v.k == "ref":
                    key, path = v.a[0], v.a[1]
                elif v.k == "guard":
                    key, path = ("lock", v.a[0]), ()
                    self.guard_value(st, v)
                elif d["k"] == "adt":
                    pass          # Box contents live in the box's own cell
                else:
                    key, path = ("anon", v), ()
                    if key not in st.cells:
                        st.cells[key] = v
                t = nt
                variant = None
            elif e[0] == ".":
                if t is not None and self.ty(t)["k"] == "adt" and self.ty(t)["path"] in ("std::pin::Pin",) + THIN:
                    t = e[2]
                    continue
                if variant is not None:
                    path = path + (("v", variant),)
                path = path + (("f", e[1], e[2], t),)
                t = e[2]
                variant = None
            elif e[0] == "as":
                variant = e[1]
            elif e[0] == "[]":
                et = self.elem_ty(t)
                path = path + (("i", self.read_local(st, frame, e[1]), et),)
                t = et
            elif e[0] == "[c]":
                v = self.load_ref(st, mk("ref", key, path))
                et = self.elem_ty(t)
                idx = sub(length(v), integer(e[1])) if e[3] else integer(e[1])
                path = path + (("i", idx, et),)
                t = et
            elif e[0] == "[..]":
                v = self.load_ref(st, mk("ref", key, path))
                end = sub(length(v), integer(e[2])) if e[3] else integer(e[2])
                path = path + (("s", integer(e[1]), sub(end, integer(e[1]))),)
            else:
                raise Unsupported("place %s" % (e,))
        return key, path

    def write_place(self, st, frame, pl, val):
        if not pl["p"]:
            st.cells[(frame.id, pl["l"])] = val
            return
        key, path = self.resolve(st, frame, pl)
        self.write_cell(st, key, path, val)

    def write_cell(self, st, key, path, val):
        if not path:
            if key[0] == "lock":
                st.ev("lockset", key[1], val)
            st.cells[key] = val
            return
        cur = st.cells.get(key)
        if cur is None:
            if key[0] == "lock":
                cur = self.guard_value(st, mk("guard", key[1], "w", integer(0)))
            elif key[0] == "anon":
                cur = key[1]
            else:
                cur = mk("unk", "uninit", str(key))
        new = self.setpath(st, cur, path, val)
        if key[0] == "lock":
            st.ev("lockset", key[1], new)
        st.cells[key] = new

    def setpath(self, st, cur, path, val):
        if not path:
            return val
        e = path[0]
        if e[0] == "v":
            # downcast: expand an opaque enum payload
            variant = e[1]
            if cur.k != "adt":
                st.assume_var(cur, variant)
                f = path[1]
                pt, kind, n = self.nfields(f[3], variant)
                if pt is None:
                    return mk("unk", "setvariant", 0)
                fields = tuple(self.field(st, cur, f[3], j, self.ftype(f[3], variant, j), variant) for j in range(n))
                cur = adt(pt, variant, *fields)
            return self.setpath(st, cur, path[1:], val)
        if e[0] == "f":
            i, ft, pt = e[1], e[2], e[3]
            if cur.k == "ref":
                self.write_cell(st, cur.a[0], cur.a[1] + path, val)
                return cur
            if cur.k == "adt":
                fs = list(cur.a[2])
                if i >= len(fs):
                    return mk("unk", "setfield", i)
                fs[i] = self.setpath(st, fs[i], path[1:], val)
                return adt(cur.a[0], cur.a[1], *fs)
            if cur.k == "tup":
                fs = list(cur.a)
                while len(fs) <= i:
                    fs.append(mk("unk", "uninit", len(fs)))
                fs[i] = self.setpath(st, fs[i], path[1:], val)
                return mk("tup", *fs)
            if cur.k == "clos":
                fs = list(cur.a[1])
                if i >= len(fs):
                    return mk("unk", "setfield", i)
                if len(path) > 1 or fs[i].k == "ref":
                    fs[i] = self.setpath(st, fs[i], path[1:], val)
                else:
                    fs[i] = val
                return mk("clos", cur.a[0], tuple(fs))
            p, kind, n = self.nfields(pt) if pt is not None else (None, None, None)
            if kind in ("struct", "Struct") and n is not None:
                fs = [self.field(st, cur, pt, j, self.ftype(pt, 0, j), None) for j in range(n)]
                fs[i] = self.setpath(st, fs[i], path[1:], val)
                return adt(p, 0, *fs)
            if kind == "tuple":
                d = self.ty(self.peel(pt))
                fs = [self.field(st, cur, pt, j, d["elems"][j], None) for j in range(n)]
                fs[i] = self.setpath(st, fs[i], path[1:], val)
                return mk("tup", *fs)
            return mk("unk", "setfield", i)
        if e[0] == "i":
            idx = st.norm(e[1])
            if len(path) > 1:
                old = self.elem_(st, cur, idx, e[2])
                val = self.setpath(st, old, path[1:], val)
            return self.updelem(st, cur, idx, val)
        if e[0] == "s":
            off, n = e[1], e[2]
            if len(path) > 1:
                old = slice_(cur, off, n)
                val = self.setpath(st, old, path[1:], val)
            return self.splice(cur, off, n, val)
        if e[0] == "o":
            old = self.payload(st, cur, e[1], e[2])
            newv = self.setpath(st, old, path[1:], val)
            if cur.k == "adt":
                fs = list(cur.a[2])
                fs[e[2]] = newv
                return adt(cur.a[0], cur.a[1], *fs)
            return some(newv) if e[1] == 1 else mk("unk", "setpayload", 0)
        return mk("unk", "setpath", str(e[0]))

    def ftype(self, pt, variant, j):
        d = self.ty(self.peel(pt))
        if d["k"] == "adt":
            a = self.P.adts.get(d["path"])
            if a:
                return a["variants"][variant]["fields"][j].get("ty")
        if d["k"] == "tuple":
            return d["elems"][j]
        return None

    def updelem(self, st, cur, idx, val):
        cur = expand(cur)
        if cur.k == "arr" and idx.k == "int" and 0 <= idx.a[0] < len(cur.a[0]):
            xs = list(cur.a[0])
            xs[idx.a[0]] = val
            return mk("arr", tuple(xs))
        if cur.k == "upd" and cur.a[1] is idx:
            cur = cur.a[0]
        if cur.k == "seq":
            # find the element among explicit segments
            pos = integer(0)
            segs = list(cur.a[0])
            for n, s in enumerate(segs):
                d = sub(idx, pos)
                if s.k == "b" and d.k == "int" and d.a[0] == 0:
                    segs[n] = mk("b", val)
                    return seq(tuple(segs))
                pos = add(pos, seglen(s))
        return mk("upd", cur, idx, val)

    def splice(self, cur, off, n, val):
        L = length(cur)
        if off.k == "int" and off.a[0] == 0 and n is L:
            return val
        if cur.k == "slice":
            pass
        tail = sub(sub(L, off), n)
        return seq((mk("cat", slice_(cur, integer(0), off)), mk("cat", val),
                    mk("cat", slice_(cur, add(off, n), tail))))

    # -------------------------------------------------------------- operands
    def const(self, st, frame, c):
        t = c["t"]
        if "int" in c:
            d = self.ty(t)
            if d["k"] == "bool":
                return boolv(bool(c["int"]))
            if d["k"] == "adt":
                # a fieldless enum or newtype constant
                a = self.P.adts.get(d["path"])
                if a and a["kind"] in ("enum", "Enum"):
                    for i, v in enumerate(a["variants"]):
                        if v["discr"] == c["int"]:
                            return adt(d["path"], i)
            return integer(c["int"])
        if "slice" in c:
            d = self.ty(self.peel(t))
            if d["k"] == "str":
                return mk("str", bytes(c["slice"]))
            return mk("bytes", tuple(c["slice"]))
        if "bytes" in c:
            d = self.ty(self.peel(t))
            if d["k"] == "array" and self.ty(d["elem"])["k"] == "uint" and self.ty(d["elem"])["bits"] == 8:
                return mk("bytes", tuple(c["bytes"]))
            if d["k"] in ("uint", "int"):
                return integer(int.from_bytes(bytes(c["bytes"]), "little"))
            if d["k"] == "adt" and d["path"] == "primitive_types::U256":
                return integer(int.from_bytes(bytes(c["bytes"]), "little"))
            if d["k"] == "adt":
                a = self.P.adts.get(d["path"])
                if a and a["kind"] in ("enum", "Enum") and all(not v["fields"] for v in a["variants"]):
                    n = int.from_bytes(bytes(c["bytes"]), "little")
                    for i, v in enumerate(a["variants"]):
                        if v["discr"] == n:
                            return adt(d["path"], i)
            return mk("konst", tuple(c["bytes"]), self.P.tstr(t))
        if "ptrbytes" in c:
            d = self.ty(self.peel(t))
            if d["k"] == "array" or d["k"] == "slice":
                return mk("bytes", tuple(c["ptrbytes"]))
            return mk("konst", tuple(c["ptrbytes"]), self.P.tstr(t))
        if "static" in c:
            return self.static(c["static"], t)
        if "fn" in c:
            key = c["fn"].get("res") or c["fn"]["path"]
            i = mk("fn", key, c["t"])
            self.fns[i] = c["fn"]
            return i
        if "promoted" in c:
            return self.promoted(st, frame, c)
        if c.get("zst"):
            d = self.ty(t)
            if d["k"] == "tuple":
                return UNIT
            if d["k"] == "closure":
                return mk("clos", d["path"], ())
            if d["k"] == "adt":
                a = self.P.adts.get(d["path"])
                if a and a["kind"] in ("struct", "Struct"):
                    return adt(d["path"], 0)
                return adt(d["path"], 0)
            if d["k"] == "array":
                return EMPTY
            return mk("zst", self.P.tstr(t))
        if "const" in c:
            v = mk("named", c["const"])
            return self.typed(v, t)
        return mk("konst", str(sorted(c.items())), self.P.tstr(t))

    def static(self, path, t):
        s = self.P.statics.get(path)
        if s is not None and not s.get("mut"):
            if "str" in s:
                return mk("str", bytes(s["str"]))
            if "bytes" in s:
                d = self.ty(s["t"])
                if d["k"] == "array":
                    return mk("bytes", tuple(s["bytes"]))
                if d["k"] in ("uint", "int"):
                    return integer(int.from_bytes(bytes(s["bytes"]), "little"))
                if d["k"] == "bool":
                    return boolv(any(s["bytes"]))
        v = mk("static", path)
        return self.typed(v, t)

    def promoted(self, st, frame, c):
        b = self.P.bodies[c["of"]]["promoted"][c["promoted"]]
        key = ("promoted", c["of"], c["promoted"])
        if key in self.fns:
            return self.fns[key]
        s2 = State()
        fr = self.mkframe(b, ("prom", c["of"], c["promoted"]), frame.depth + 1)
        outs = self.run_frame(fr, s2)
        v = outs[0][2] if outs and outs[0][0] == "ret" else mk("unk", "promoted", c["of"])
        self.fns[key] = v
        return v

    def operand(self, st, frame, o):
        if "copy" in o:
            return self.read_place(st, frame, o["copy"])
        if "move" in o:
            pl = o["move"]
            v = self.read_place(st, frame, pl)
            if not pl["p"]:
                st.cells.pop((frame.id, pl["l"]), None)
            elif self.owns_guard(v):
                try:
                    key, path = self.resolve(st, frame, pl)
                    cur = st.cells.get(key)
                    if cur is not None:
                        st.cells[key] = self.setpath(st, cur, path, MOVED)
                except Unsupported:
                    pass
            return v
        return self.const(st, frame, o["const"])

    def owns_guard(self, v):
        return any(g.k == "guard" for g in self.owned(v))

    def owned(self, v, depth=6):
        """owned sub-values (structure only)"""
        yield v
        if depth == 0:
            return
        if v.k == "adt":
            for x in v.a[2]:
                yield from self.owned(x, depth - 1)
        elif v.k == "tup":
            for x in v.a:
                yield from self.owned(x, depth - 1)
        elif v.k == "clos":
            for x in v.a[1]:
                yield from self.owned(x, depth - 1)

    # -------------------------------------------------------------- rvalues
    def is_cell(self, t):
        """A shared borrow through which its target can still be written."""
        x = self.ty(t)
        if x["k"] != "ref":
            return False
        x = self.ty(x["elem"])
        return x["k"] == "adt" and x["path"] in (
            "std::cell::Cell", "core::cell::Cell", "std::cell::RefCell", "core::cell::RefCell")

    def op_ty(self, frame, o):
        if "copy" in o:
            return o["copy"]["t"]
        if "move" in o:
            return o["move"]["t"]
        return o["const"]["t"]

    def rvalue(self, st, frame, r, dt):
        k = r["r"]
        if k == "use":
            return self.operand(st, frame, r["o"])
        if k == "ref":
            pl = r["place"]
            if r.get("mut") and not r.get("fake") or self.is_cell(dt):
                key, path = self.resolve(st, frame, pl)
                return mk("ref", key, path)
            return self.read_place(st, frame, pl)
        if k == "cast":
            v = self.operand(st, frame, r["o"])
            return self.cast(st, v, r["kind"], self.op_ty(frame, r["o"]), r["t"])
        if k == "bin":
            a = self.operand(st, frame, r["a"])
            b = self.operand(st, frame, r["b"])
            return self.binop(st, r["op"], a, b, self.op_ty(frame, r["a"]))
        if k == "un":
            a = self.operand(st, frame, r["a"])
            op = r["op"]
            if op == "Not":
                if self.ty(self.op_ty(frame, r["a"]))["k"] == "bool":
                    return neg(a)
                rg = self.int_type(self.op_ty(frame, r["a"]))
                if rg and rg[0] == 0:
                    return sub(integer(rg[1]), a)
                return sub(integer(-1), a)
            if op == "Neg":
                return scale(a, -1)
            if op == "PtrMetadata":
                if a.k == "ref":
                    a = self.load_ref(st, a)
                return length(a)
            return mk("unk", "un", op)
        if k == "discr":
            pl = r["place"]
            v = self.read_place(st, frame, pl)
            return self.discr(st, v, pl["t"])
        if k == "len":
            return length(self.read_place(st, frame, r["place"]))
        if k == "agg":
            ops = [self.operand(st, frame, o) for o in r["ops"]]
            kk = r["k"]
            if kk == "adt":
                if r.get("active") is not None:
                    return mk("unk", "union", 0)
                return self.mk_adt(r["path"], r["variant"], ops)
            if kk == "tuple":
                return mk("tup", *ops)
            if kk == "array":
                return mk("arr", tuple(ops))
            if kk in ("closure", "coroutine"):
                return mk("clos", r["path"], tuple(ops))
            return mk("unk", "agg", kk)
        if k == "repeat":
            v = self.operand(st, frame, r["o"])
            n = r["n"].get("const") if isinstance(r["n"], dict) else r["n"]
            if isinstance(n, int):
                return mk("rept", v, integer(n))
            return mk("rept", v, mk("constlen", str(r["n"])))
        if k == "tls":
            return mk("static", str(r.get("path")))
        return mk("unk", "rvalue", k)

    def mk_adt(self, path, variant, ops):
        if path == "primitive_types::U256" and len(ops) == 1:
            return self.mod.from_limbs(ops[0])
        return adt(path, variant, *ops)

    def discr(self, st, v, t):
        if v.k == "guard":
            v = self.guard_value(st, v)
        if v.k == "ref":
            v = self.load_ref(st, v)
        i = st.variant(v)
        d = self.ty(self.peel(t))
        if i is not None and d["k"] == "adt":
            a = self.P.adts.get(d["path"])
            if a:
                return integer(a["variants"][i]["discr"])
            return integer(i)
        r = mk("discr", v, d.get("path"))
        RANGE.setdefault(r, (0, 255))
        return r

    def cast(self, st, v, kind, ft, t):
        if kind.startswith("IntToInt"):
            if v.k == "bool":
                return integer(1 if v.a[0] else 0)
            fd = self.ty(ft)
            if fd["k"] == "bool":
                r = mk("b2i", v)
                RANGE.setdefault(r, (0, 1))
                return r
            rg = self.int_type(t)
            if rg is None:
                return v
            if st.prove(sub(v, integer(rg[0]))) and st.prove(sub(integer(rg[1]), v)):
                return v
            if v.k == "int":
                n = v.a[0]
                m = rg[1] - rg[0] + 1
                n = (n - rg[0]) % m + rg[0]
                return integer(n)
            r = mk("trunc", v, rg[0], rg[1])
            RANGE.setdefault(r, rg)
            return r
        if kind.startswith("PointerCoercion") or kind.startswith("PtrToPtr") or kind.startswith("Transmute"):
            if kind.startswith("Transmute"):
                return self.mod.transmute(self, st, v, ft, t)
            return v
        if kind.startswith("FnPtr") or kind.startswith("Reify"):
            return v
        return v if v.k in ("ref", "fn", "clos") else mk("cast", v, self.P.tstr(t))

    def binop(self, st, op, a, b, t):
        rg = self.int_type(t)
        base = op
        if op.endswith("WithOverflow"):
            base = op[:-12]
            val = self.arith(st, base, a, b, rg)
            if rg is None:
                return mk("tup", val, FALSE)
            ov = neg(conj(nn(sub(val, integer(rg[0]))), nn(sub(integer(rg[1]), val))))
            return mk("tup", val, ov)
        if base in ("Add", "Sub", "Mul", "AddUnchecked", "SubUnchecked", "MulUnchecked"):
            val = self.arith(st, base.replace("Unchecked", ""), a, b, rg)
            if rg and base == op:
                # wrapping unless provably in range
                return self.wrap(st, val, rg)
            return val
        if base in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            d = self.ty(t)
            if d["k"] == "bool" or not (is_int(a) or is_int(b)):
                e = eq(a, b)
                if base == "Eq":
                    return e
                if base == "Ne":
                    return neg(e)
                f = mk("cmp", a, b)
                return {"Lt": mk("isord", f, 0), "Gt": mk("isord", f, 2),
                        "Le": neg(mk("isord", f, 2)), "Ge": neg(mk("isord", f, 0))}[base]
            return {"Eq": ieq(a, b), "Ne": neg(ieq(a, b)), "Lt": lt(a, b), "Le": le(a, b),
                    "Gt": lt(b, a), "Ge": le(b, a)}[base]
        if base == "Cmp":
            return mk("cmp", a, b)
        if base in ("Div", "Rem"):
            return div(a, b) if base == "Div" else self.rem_(st, a, b)
        if base in ("Shl", "Shr", "ShlUnchecked", "ShrUnchecked"):
            return self.shift(st, base[:3], a, b, rg)
        if base in ("BitAnd", "BitOr", "BitXor"):
            return self.bit(st, base, a, b, rg, self.ty(t)["k"] == "bool")
        if base == "Offset":
            return mk("unk", "ptr", 0)
        return mk("unk", "bin", base)

    def rem_(self, st, a, b):
        a = st.norm(a)
        if b.k == "int" and b.a[0] > 0 and st.prove(a) and st.prove(sub(integer(b.a[0] - 1), a)):
            return a
        return rem(a, b)

    def arith(self, st, op, a, b, rg):
        if op == "Add":
            return add(a, b)
        if op == "Sub":
            return sub(a, b)
        if op == "Mul":
            return mul(a, b)
        return mk("unk", "arith", op)

    def wrap(self, st, val, rg):
        if val.k == "int":
            m = rg[1] - rg[0] + 1
            return integer((val.a[0] - rg[0]) % m + rg[0])
        if st.prove(sub(val, integer(rg[0]))) and st.prove(sub(integer(rg[1]), val)):
            return val
        r = mk("wrap", val, rg[0], rg[1])
        RANGE.setdefault(r, rg)
        return r

    def shift(self, st, op, a, b, rg):
        if b.k == "int" and b.a[0] >= 0:
            if op == "Shl":
                v = scale(a, 1 << b.a[0])
                if rg:
                    if v.k == "int":
                        return integer(v.a[0] & rg[1])
                    if st.prove(sub(integer(rg[1]), v)) and st.prove(v):
                        return v
                    r = mk("rem", v, integer(rg[1] + 1))
                    RANGE.setdefault(r, rg)
                    return r
                return v
            lo = lin_range(a)[0]
            if lo is not None and lo >= 0 or st.prove(a):
                return div(a, integer(1 << b.a[0]))
        if op == "Shl" and a.k == "int" and a.a[0] == 1:
            return pow2(b)
        r = mk("shl" if op == "Shl" else "shr", a, b)
        if rg:
            RANGE.setdefault(r, rg)
        return r

    def bit(self, st, op, a, b, rg, isbool):
        if isbool:
            if op == "BitAnd":
                return conj(a, b)
            if op == "BitOr":
                return disj(a, b)
            return neg(eq(a, b)) if not (a.k == "bool" or b.k == "bool") else neg(eq(a, b))
        if a.k == "int" and b.k == "int":
            x, y = a.a[0], b.a[0]
            return integer({"BitAnd": x & y, "BitOr": x | y, "BitXor": x ^ y}[op])
        if a is b and op in ("BitAnd", "BitOr"):
            return a
        if a is b:
            return integer(0)
        for x, y in ((a, b), (b, a)):
            if y.k == "int":
                n = y.a[0]
                if n == 0:
                    return integer(0) if op == "BitAnd" else x
                if op == "BitAnd" and n & (n + 1) == 0 and (st.prove(x) or True):
                    # low mask
                    lo, hi = lin_range(x)
                    if st.prove(x) and st.prove(sub(integer(n), x)):
                        return x
                    if st.prove(x):
                        return self.rem_(st, x, integer(n + 1))
                if op == "BitXor" and n == 1 and st.prove(x) and st.prove(sub(integer(1), x)):
                    return sub(integer(1), x)
        if a.id > b.id:
            a, b = b, a
        r = mk({"BitAnd": "band", "BitOr": "bor", "BitXor": "bxor"}[op], a, b)
        if rg:
            RANGE.setdefault(r, rg)
        return r

    # -------------------------------------------------------------- frames
    def mkframe(self, body, fid, depth):
        f = Frame()
        f.body = body
        f.id = ("F", self.frame_ids.setdefault(fid, len(self.frame_ids)))
        f.depth = depth
        self.prep(body)
        return f

    def prep(self, body):
        if "loops" in body:
            return
        blocks = body["blocks"]
        succ = []
        for b in blocks:
            t = b["t"]
            k = t["k"]
            s = []
            if k == "switch":
                s = [x[1] for x in t["vals"]] + [t["else"]]
            elif k in ("goto", "drop", "call", "assert", "yield"):
                s = [t["to"]]
            elif k == "other":
                s = [t.get("to")]
            succ.append([x for x in s if x is not None])
        # dominators by iterative sets over reachable blocks
        order, seen = [], set()
        stack = [(0, iter(succ[0]))]
        seen.add(0)
        while stack:
            n, it = stack[-1]
            for m in it:
                if m not in seen and not blocks[m]["cleanup"]:
                    seen.add(m)
                    stack.append((m, iter(succ[m])))
                    break
            else:
                order.append(n)
                stack.pop()
        order.reverse()
        idx = {n: i for i, n in enumerate(order)}
        preds = {n: [] for n in order}
        for n in order:
            for m in succ[n]:
                if m in preds:
                    preds[m].append(n)
        idom = {0: 0}
        changed = True
        while changed:
            changed = False
            for n in order[1:]:
                new = None
                for p in preds[n]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            a, b = p, new
                            while a != b:
                                while idx[a] > idx[b]:
                                    a = idom[a]
                                while idx[b] > idx[a]:
                                    b = idom[b]
                            new = a
                if new is not None and idom.get(n) != new:
                    idom[n] = new
                    changed = True

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == 0:
                    return False
                b = idom[b]
        loops = {}
        for n in order:
            for m in succ[n]:
                if m in idx and dom(m, n):
                    blk = loops.setdefault(m, {m})
                    work = [n]
                    while work:
                        x = work.pop()
                        if x not in blk:
                            blk.add(x)
                            work.extend(preds[x])
        body["loops"] = loops

    def tick(self):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Budget("step budget")
        if self.deadline and self.steps % 256 == 0 and time.time() > self.deadline:
            raise Budget("time budget")

    def run_frame(self, frame, st):
        outs = self.explore(frame, 0, st, None, False)
        res = []
        for o in outs:
            if o[0] in ("ret", "panic"):
                s = o[1]
                if o[0] == "ret":
                    v = s.cells.get((frame.id, 0))
                    if v is None:
                        v = self.uninit(s, frame, 0, frame.body["locals"][0]["t"])
                    # drop remaining guards owned by the frame
                    for key in [k for k in s.cells if k[0] == frame.id]:
                        del s.cells[key]
                    res.append(("ret", s, v))
                else:
                    for key in [k for k in s.cells if k[0] == frame.id]:
                        del s.cells[key]
                    res.append(o)
        return res

    def explore(self, frame, bb, st, region, skip_head):
        out = []
        stack = [(bb, st, skip_head)]
        loops = frame.body["loops"]
        while stack:
            bb, st, first = stack.pop()
            if region is not None and not first:
                if bb == region[0]:
                    out.append(("back", st, None))
                    continue
                if bb not in region[1]:
                    out.append(("exit", st, bb))
                    continue
            if bb in loops and not first and not (region is not None and bb == region[0]):
                blk = loops[bb]

                def step(s, bb=bb, blk=blk):
                    return self.explore(frame, bb, s, (bb, blk), True)
                for o in self.loop((frame.id, bb), st, step, frame):
                    if o[0] == "exit":
                        stack.append((o[2], o[1], False))
                    else:
                        out.append(o)
                continue
            self.tick()
            for o in self.block(frame, bb, st):
                if o[0] == "next":
                    stack.append((o[2], o[1], False))
                elif o[0] == "panic" and not self.keep_panics:
                    self.dropped_panics += 1
                else:
                    out.append(o)
        return out

    # -------------------------------------------------------------- blocks
    def block(self, frame, bb, st):
        blk = frame.body["blocks"][bb]
        for s in blk["s"]:
            k = s["s"]
            if k == "=":
                v = self.rvalue(st, frame, s["v"], s["p"]["t"])
                self.write_place(st, frame, s["p"], v)
            elif k == "dead":
                st.cells.pop((frame.id, s["l"]), None)
            elif k == "live":
                pass
            elif k == "setdiscr":
                pass
        t = blk["t"]
        k = t["k"]
        if k == "goto":
            return [("next", st, t["to"])]
        if k == "return":
            return [("ret", st, None)]
        if k in ("unreachable", "resume", "abort", "terminate"):
            return []
        if k == "drop":
            self.drop_place(st, frame, t["p"], t.get("sp"))
            return [("next", st, t["to"])]
        if k == "switch":
            return self.switch(frame, st, t)
        if k == "assert":
            c = self.operand(st, frame, t["o"])
            exp = t["expected"]
            outs = []
            tr = st.truth(c)
            if tr is None or tr != exp:
                s2 = st.copy()
                if s2.assume(c, not exp):
                    outs.append(("panic", s2, (t["msg"], frame.body["path"], t.get("sp"))))
            if tr is None or tr == exp:
                if st.assume(c, exp):
                    outs.append(("next", st, t["to"]))
            return outs
        if k == "call":
            return self.call(frame, st, t)
        if k == "yield":
            st.ev("yield", t.get("sp"), frame.body["path"])
            self.write_place(st, frame, t["dest"], UNIT)
            return [("next", st, t["to"])]
        if k == "other" and t.get("to") is not None:
            return [("next", st, t["to"])]
        return []

    def drop_place(self, st, frame, pl, sp):
        if not pl["p"] and (frame.id, pl["l"]) not in st.cells:
            return
        v = self.read_place(st, frame, pl)
        if v.k == "unk" and v.a[0] in ("uninit", "variant", "dangling"):
            return
        self.drop_value(st, v, (frame.body["path"], sp))
        if not pl["p"]:
            st.cells.pop((frame.id, pl["l"]), None)

    def drop_value(self, st, v, site):
        for g in self.owned(v):
            if g.k == "guard":
                self.release(st, g, site)
            elif g.k == "res":
                st.ev("dropres", g, site)

    def release(self, st, g, site):
        if g in st.held:
            i = st.held.index(g)
            st.held = st.held[:i] + st.held[i + 1:]
            st.ev("release", g.a[0], g.a[1], site)

    def switch(self, frame, st, t):
        v = self.operand(st, frame, t["o"])
        outs = []
        if v.k == "bool" or self.ty(t["t"])["k"] == "bool":
            targets = {int(x): b for x, b in t["vals"]}
            for val in (True, False):
                b = targets.get(1 if val else 0, t["else"])
                tr = st.truth(v)
                if tr is not None and tr != val:
                    continue
                s2 = st.copy()
                if s2.assume(v, val):
                    outs.append(("next", s2, b))
            return outs
        if v.k == "int":
            for x, b in t["vals"]:
                if x == v.a[0]:
                    return [("next", st, b)]
            return [("next", st, t["else"])]
        if v.k == "discr":
            inner, path = v.a
            a = self.P.adts.get(path) if path else None
            if a:
                byd = {x: b for x, b in t["vals"]}
                for i, var in enumerate(a["variants"]):
                    b = byd.get(var["discr"], t["else"])
                    if b is None:
                        continue
                    if self.is_unreachable(frame, b):
                        continue
                    s2 = st.copy()
                    if s2.assume_var(inner, i):
                        outs.append(("next", s2, b))
                return outs
        rest = st
        for x, b in t["vals"]:
            c = ieq(v, integer(x)) if is_int(v) else eq(v, integer(x))
            s2 = rest.copy()
            if s2.assume(c, True):
                outs.append(("next", s2, b))
            if not rest.assume(c, False):
                rest = None
                break
        if rest is not None and t["else"] is not None and not self.is_unreachable(frame, t["else"]):
            outs.append(("next", rest, t["else"]))
        return outs

    def is_unreachable(self, frame, b):
        blk = frame.body["blocks"][b]
        return not blk["s"] and blk["t"]["k"] == "unreachable"

    # -------------------------------------------------------------- calls
    def call(self, frame, st, t):
        f = t["f"]
        site = (frame.body["path"], t.get("sp"))
        if "const" in f and "fn" in f["const"]:
            callee = f["const"]["fn"]
            args = [self.operand(st, frame, a) for a in t["args"]]
            argts = [self.op_ty(frame, a) for a in t["args"]]
            dt = t["dest"]["t"]
            outs = self.do_call(st, callee, args, argts, dt, site, frame,
                                (frame.id, t.get("sp"), id(t)))
        else:
            fv = self.operand(st, frame, f)
            args = [self.operand(st, frame, a) for a in t["args"]]
            outs = self.call_value(st, fv, args, t["dest"]["t"], site, frame, (frame.id, t.get("sp"), id(t)))
        res = []
        for o in outs:
            if o[0] == "ret":
                if t["to"] is None:
                    continue
                s = o[1]
                v = o[2]
                if v.k in ("unk", "call", "vf", "fld", "elem", "item", "havoc", "lkval"):
                    self.typed(v, t["dest"]["t"])
                self.write_place(s, frame, t["dest"], v)
                res.append(("next", s, t["to"]))
            else:
                res.append(o)
        return res

    def local_target(self, callee, argts):
        """path of a local body that this call runs, or None"""
        res = callee.get("res")
        if res and callee.get("res_local") and res in self.P.bodies and not callee.get("virtual"):
            return res
        p = callee["path"]
        if callee.get("local") and p in self.P.bodies and not callee.get("virtual") and not callee.get("trait"):
            return p
        # the same with generics stripped (impl blocks with lifetimes)
        return None

    def do_call(self, st, callee, args, argts, dt, site, frame, key):
        path = strip_generics(callee["path"])
        res = callee.get("res")
        tgt = self.local_target(callee, argts)
        self.callsites.add((site[0], site[1], res or path))
        if path in ("std::ops::FnOnce::call_once", "std::ops::FnMut::call_mut", "std::ops::Fn::call"):
            tgt = None      # the arguments come as a tuple: the model unpacks them
        for name in (tgt, res, path):
            if name is not None and name in self.prims:
                r = self.prims[name](self, st, Call(callee, path, args, argts, dt, site, frame, key))
                if r is not None:
                    return r
        if tgt is None and callee.get("virtual"):
            tgt = self.devirtualize(st, callee, args)
        if tgt is not None:
            # derived Clone is a copy
            if self.is_derived(tgt, callee):
                m = self.models.get(path)
                if m:
                    return m(self, st, Call(callee, path, args, argts, dt, site, frame, key))
            m = self.models.get("local:" + tgt)
            if m:
                return m(self, st, Call(callee, path, args, argts, dt, site, frame, key))
            tgt = self.P.inst_path(tgt, callee.get("res_args") if callee.get("res") == tgt else callee.get("args"))
            return self.inline(st, tgt, args, site, frame, key)
        c = Call(callee, path, args, argts, dt, site, frame, key)
        # comparison through references: find a local implementation
        if callee.get("trait") in ("std::cmp::PartialEq", "std::cmp::PartialOrd", "std::cmp::Ord"):
            lt_ = self.local_impl(callee, argts)
            if lt_ is not None and not self.is_derived(lt_[0], callee):
                body, negate = lt_
                outs = self.inline(st, body, args, site, frame, key)
                if negate:
                    outs = [(o[0], o[1], neg(o[2])) if o[0] == "ret" else o for o in outs]
                return outs
        m = self.models.get(path)
        if m is None and res:
            m = self.models.get(strip_generics(res))
        if m is not None:
            return m(self, st, c)
        return self.modfall(self, st, c)

    def devirtualize(self, st, callee, args):
        """the body a call through a trait object runs when its receiver is a known struct"""
        if not args:
            return None
        v = self.mod.W(self, st, args[0])
        if v.k != "adt":
            return None
        p = "<%s as %s>::%s" % (v.a[0], callee.get("trait"), callee.get("name"))
        return p if p in self.P.bodies else None

    def is_derived(self, tgt, callee):
        if callee.get("trait") in ("std::clone::Clone", "std::cmp::PartialEq", "std::cmp::PartialOrd", "std::cmp::Ord",
                                   "std::fmt::Debug", "std::cmp::Eq"):
            for im in self.P.impls:
                if im.get("derived") and tgt in im["methods"].values():
                    return True
        return False

    def local_impl(self, callee, argts):
        if not argts:
            return None
        d = self.P.types[self.peel_refs(argts[0])]
        for im in self.P.impls:
            if im["trait"] != callee["trait"] or im.get("derived"):
                continue
            if self._same_ty(im["self"], d):
                name = callee["name"]
                if name in im["methods"]:
                    p = im["methods"][name]
                    if p in self.P.bodies:
                        return p, False
                if name == "ne" and "eq" in im["methods"] and im["methods"]["eq"] in self.P.bodies:
                    return im["methods"]["eq"], True
        return None

    def _same_ty(self, s, d):
        if isinstance(s, int):
            s = self.P.types[s]["s"]
        a = str(s).replace(" + 'static", "").replace("'static", "")
        b = d["s"].replace(" + 'static", "").replace("'static", "")
        return a == b

    def peel_refs(self, t):
        while self.P.types[t]["k"] in ("ref", "ptr"):
            t = self.P.types[t]["elem"]
        return t

    def inline(self, st, path, args, site, frame, key):
        body = self.P.bodies[path]
        depth = frame.depth + 1
        self._stack.append(path)
        try:
            if depth > self.max_depth or self._stack.count(path) >= 2:
                return self.recursive(st, path, args, site, frame, body)
            self.visited.add(body["path"])
            fr = self.mkframe(body, ("call", key, path), depth)
            for i, a in enumerate(args):
                st.cells[(fr.id, i + 1)] = a
            outs = self.run_frame(fr, st)
        finally:
            self._stack.pop()
        return self.merge(outs)

    def recursive(self, st, path, args, site, frame, body):
        """a recursive call: summarised by its own contract"""
        rt = body["locals"][0]["t"]
        c = Call({"path": path, "name": path.split("::")[-1], "res": path}, path, args,
                 [None] * len(args), rt, site, frame, None)
        st.ev("call", path, tuple(args), site)
        return self.mod.opaque_result(self, st, c, mk("call", path, *args))

    def merge(self, outs):
        """when there are many, identical outcomes up to facts become one (facts intersected)"""
        if len(outs) < MANY or getattr(self, "no_merge", False):
            return outs
        groups = {}
        order = []
        for o in outs:
            if o[0] == "ret":
                s = o[1]
                key = ("ret", o[2], id(s.trace) if False else _tr(s.trace), s.held, s.alls,
                       frozenset(s.cells.items()), frozenset(s.dbver.items()), frozenset(s.dbover.items()),
                       s.unk)
            else:
                key = ("x", id(o))
            if key not in groups:
                groups[key] = []
                order.append(key)
            groups[key].append(o)
        res = []
        for k in order:
            g = groups[k]
            if len(g) == 1:
                res.append(g[0])
                continue
            s = g[0][1].copy()
            others = [o[1] for o in g[1:]]
            s.taint("merged paths")
            s.lin = [f for f in s.lin if all(x.prove(f) for x in others)]
            s.bools = {c: v for c, v in s.bools.items() if all(x.truth(c) == v for x in others)}
            s.vars = {c: v for c, v in s.vars.items() if all(x.vars.get(c) == v for x in others)}
            s.eqs = {a: v for a, v in s.eqs.items() if all(x.eqs.get(a) is v for x in others)}
            s.ctr = max(x.ctr for x in [s] + others)
            for x in others:
                for a, n in x.epochs.items():
                    s.epochs[a] = max(s.epochs.get(a, 0), n)
            res.append(("ret", s, g[0][2]))
        return res

    def call_value(self, st, fv, args, dt, site, frame, key):
        """call a closure or function value with these arguments"""
        if fv.k == "ref":
            inner = self.load_ref(st, fv)
            if inner.k == "clos":
                return self.call_clos(st, inner, fv, args, site, frame, key)
            fv = inner
        if fv.k == "clos":
            return self.call_clos(st, fv, None, args, site, frame, key)
        if fv.k == "fn":
            callee = self.fns[fv]
            ctor = self.ctor_of(callee, len(args))
            if ctor is not None:
                return [("ret", st, adt(ctor[0], ctor[1], *args))]
            argts = [None] * len(args)
            return self.do_call(st, callee, args, self.fn_argts(callee, len(args)), dt, site, frame, key)
        st.ev("callvalue", fv, tuple(args), site)
        r = mk("call", "value", fv, *args)
        self.havoc_args(st, args, [None] * len(args), "closure")
        return [("ret", st, self.typed(r, dt) if dt is not None else r)]

    def fn_argts(self, callee, n):
        p = self.local_target(callee, [])
        if p:
            b = self.P.bodies[p]
            return [b["locals"][i + 1]["t"] for i in range(min(n, b["argc"]))]
        s = callee.get("self")
        return ([s] if s is not None else [None]) + [None] * (n - 1) if n else []

    def ctor_of(self, callee, n):
        p = strip_generics(callee["path"])
        if p in self.P.adts and self.P.adts[p]["kind"] in ("struct", "Struct"):
            return p, 0
        if "::" in p:
            head, name = p.rsplit("::", 1)
            if head.endswith("prelude::v1") or head in ("std::option::Option", "std::result::Result"):
                v = {"Some": (OPTION, 1), "Ok": (RESULT, 0), "Err": (RESULT, 1)}.get(name)
                if v is not None and n == 1:
                    return v
            a = self.P.adts.get(head)
            if a:
                for i, v in enumerate(a["variants"]):
                    if v["name"] == name and len(v["fields"]) == n:
                        return head, i
        return None

    def call_clos(self, st, clos, ref, args, site, frame, key):
        path = clos.a[0]
        body = self.P.bodies.get(path)
        if body is None:
            return [("ret", st, mk("unk", "closure", path))]
        self.visited.add(body["path"])
        if self._stack.count(path) >= 2 or frame.depth > self.max_depth:
            st.taint("recursion:" + path)
            return [("ret", st, mk("unk", "recursion", path))]
        self._stack.append(path)
        try:
            fr = self.mkframe(body, ("clos", key, path), frame.depth + 1)
            st_t = body["locals"][1]["t"]
            d = self.ty(st_t)
            if d["k"] == "ref" and d.get("mut"):
                if ref is None:
                    ck = ("closcell", fr.id)
                    st.cells[ck] = clos
                    ref = mk("ref", ck, ())
                st.cells[(fr.id, 1)] = ref
            else:
                st.cells[(fr.id, 1)] = clos
            n = body["argc"] - 1
            if n == 1 and len(args) != 1:
                args = [mk("tup", *args)]
            for i, a in enumerate(args):
                st.cells[(fr.id, i + 2)] = a
            outs = self.run_frame(fr, st)
        finally:
            self._stack.pop()
        for o in outs:
            o[1].cells.pop(("closcell", fr.id), None)
        return self.merge(outs)

    def havoc_args(self, st, args, argts, why):
        for a in args:
            for x in self.owned(a):
                if x.k == "ref":
                    old = self.load_ref(st, x)
                    st.ctr += 1
                    new = mk("havoc", why, old, integer(st.ctr))
                    if old in ALEN:
                        ALEN[new] = ALEN[old]
                    elif old.k in ("arr", "bytes") or (old.k == "rept" and old.a[1].k == "int"):
                        ALEN[new] = length(old).a[0]
                    if old in RANGE:
                        RANGE[new] = RANGE[old]
                    self.write_cell(st, x.a[0], x.a[1], new)

    # -------------------------------------------------------------- loops
    def loop(self, key, st0, step, frame):
        """step(st) -> [(tag, st, payload)], 'back' continues the iteration"""
        self.loops.add(key if not isinstance(key[0], tuple) else (frame.body["path"], key[1]))
        base = st0.trace
        pre = st0.copy()
        outs = step(st0.copy())
        backs = [o for o in outs if o[0] == "back"]
        if not backs:
            return outs
        determined = len(outs) == 1
        if determined and self.concrete_shapes:
            u = self.unroll(pre, outs, step)
            if u is not None:
                return u
        if not determined and self.concrete_shapes:
            u = self.unroll(pre, outs, step, forking=True)
            if u is not None:
                return u
        if self.shortit(pre, backs, any(o[1].trace is not base for o in outs)):
            u = self.unroll(pre, outs, step, forking=True)
            if u is not None:
                return u
        r = self.generalise(key, pre, outs, step, frame)
        if r is not None and (not determined or not r[1]):
            return r[0]
        if determined:
            u = self.unroll(pre, outs, step)
            if u is not None:
                return u
        if r is not None:
            return r[0]
        u = self.unroll(pre, outs, step, forking=True)
        if u is not None:
            return u
        raise Unsupported("loop in %s" % (frame.body["path"],))

    def shortit(self, pre, backs, effects, most=6):
        """does the loop step through a sequence of at most `most` known elements, with effects or over listed elements?"""
        def listed(v):
            return v.k == "arr" or v.k == "view" and any(listed(x) for x in v.a if isinstance(x, V))

        def its(v, out, depth=0):
            if v.k == "it":
                out.append(v)
            elif depth < 4 and v.k in ("tup", "adt", "struct", "itmap", "itenum", "itzip", "itchain", "agg", "var", "coro"):
                for x in v.a:
                    if isinstance(x, V):
                        its(x, out, depth + 1)
        s = backs[0][1]
        for c, v in s.cells.items():
            p = pre.cells.get(c)
            if p is None or p is v:
                continue
            old, new = [], []
            its(p, old)
            its(v, new)
            for a, b in zip(old, new):
                if a is not b and a.a[3].k == "int" and a.a[3].a[0] <= most and (effects or listed(a.a[0])) and \
                        all(x.k == "int" for x in (a.a[1], a.a[2], b.a[1], b.a[2])) and \
                        b.a[1].a[0] + b.a[2].a[0] > a.a[1].a[0] + a.a[2].a[0]:
                    return True
        return False

    def unroll(self, pre, outs, step, forking=False, limit=300):
        res = []
        cur = outs
        n = 0
        while True:
            nxt = []
            for o in cur:
                if o[0] == "back":
                    nxt.append(o[1])
                else:
                    res.append(o)
            if not nxt:
                return res
            if len(nxt) > (1 if not forking else 64):
                # try merging equal states
                m = self.merge([("ret", s, UNIT) for s in nxt])
                nxt = [x[1] for x in m]
                if len(nxt) > (8 if not forking else 64):
                    return None
            n += 1
            if n > (limit if not forking else 1100 if self.concrete_shapes and len(nxt) == 1 else 40):
                return None
            if self.deadline and time.time() > self.deadline:
                raise Budget("time budget")
            cur = []
            for s in nxt:
                cur.extend(step(s))

    def generalise(self, key, pre, outs0, step, frame):
        pre_ctr = pre.ctr
        k = mk("k", str(key), integer(pre.ctr))
        bv = mk("bv", str(key), integer(pre.ctr))
        RANGE[bv] = (0, LENMAX)
        base = pre.trace
        forms = {}        # cell key -> value template at iteration k
        guess = {}        # (cell, path) -> ('arith', d) | ('geo', r) | ('acc') | ('upd') | ('opaque')

        def changed(backs, ref):
            ch = set()
            for o in backs:
                s = o[1]
                for c, v in s.cells.items():
                    if ref.cells.get(c) is not v:
                        ch.add(c)
                for c in ref.cells:
                    if c not in s.cells:
                        ch.add(c)
            return ch

        backs = [o for o in outs0 if o[0] == "back"]
        cells = set()
        gone = set()
        for rnd in range(7):
            ref = pre
            new_cells = changed(backs, pre if rnd == 0 else cur_state)
            # cells that only exist inside the iteration are dropped
            for c in list(new_cells):
                if c not in pre.cells:
                    new_cells.discard(c)
                    gone.add(c)
                elif all(c not in o[1].cells for o in backs):
                    new_cells.discard(c)
                    gone.add(c)
            cells |= new_cells
            # build the symbolic state of iteration k
            cur_state = pre.copy()
            cur_state.ctr = pre_ctr + 1
            for c in gone:
                cur_state.cells.pop(c, None)
            bad = False
            leaves = []
            for c in sorted(cells, key=str):
                vs = [o[1].cells.get(c) for o in backs] if rnd == 0 else None
                if rnd == 0:
                    if any(v is None for v in vs):
                        vs = [v for v in vs if v is not None]
                        cur_state.cells.pop(c, None)
                        gone.add(c)
                        continue
                    tmpl = self.template(pre.cells[c], vs, (c,), guess, k, key)
                    forms[c] = tmpl
                elif c not in forms:
                    vs = [o[1].cells.get(c) for o in backs]
                    if any(v is None for v in vs):
                        cur_state.cells.pop(c, None)
                        gone.add(c)
                        continue
                    forms[c] = self.template(pre.cells[c], vs, (c,), guess, k, key)
            for c in cells - gone:
                cur_state.cells[c] = self.instantiate(forms[c], guess, k, pre)
            if any(g[0] == "opaque" for g in guess.values()) and False:
                pass
            cur_state.trace = ("mark", ("loopstart",))
            cur_state.trace = (None, ("loopstart", key))
            start_facts = (set(cur_state.lin), set(cur_state.bools), set(cur_state.vars))
            # db versions may have been bumped by the body: invalidate
            if any(o[1].dbver != pre.dbver or o[1].dbover != pre.dbover for o in backs):
                cur_state.dbover = {}
                for d in set(x for o in backs for x in o[1].dbver):
                    vv = pre.dbver.get(d)
                    if any(o[1].dbver.get(d) is not vv for o in backs):
                        cur_state.dbver[d] = mk("ver", integer(pre.ctr), k)
            self.add_lenfacts(cur_state, k)
            outs = step(cur_state.copy())
            backs = [o for o in outs if o[0] == "back"]
            # verify
            ok_ = True
            extra = changed(backs, cur_state)
            for c in extra:
                if c in pre.cells and c not in cells and c not in gone:
                    ok_ = False
            segs_of = {}
            for c in cells - gone:
                tgt = [o[1].cells.get(c) for o in backs]
                if any(v is None for v in tgt):
                    gone.add(c)
                    ok_ = False
                    continue
                if not self.verify(forms[c], tgt, guess, k, pre, segs_of, key, backs, bv):
                    ok_ = False
            if ok_:
                break
        else:
            return None
        # closed forms of accumulated sequences
        m_exit = {}
        opaque = [p for p, g in guess.items() if g[0] == "opaque"]
        final = {}
        for p, g in guess.items():
            if g[0] == "acc":
                acc = g[1]
                alts = segs_of.get(p, [])
                alts_b = tuple(tuple(subst(s, {k: bv}) for s in a) for a in alts)
                if len(set(alts_b)) == 1:
                    m_exit[acc] = ("acc", g[2], "rep", alts_b[0])
                else:
                    m_exit[acc] = ("acc", g[2], "alt", tuple(sorted(set(alts_b), key=lambda a: [x.id for x in a])))
            elif g[0] == "upd":
                m_exit[g[1]] = ("upd", g[2], segs_of.get(p))
        # body trace summary (continuing iterations)
        def tail(tr):
            o = []
            while tr is not None and tr[1][0] != "loopstart":
                o.append(tr[1])
                tr = tr[0]
            o.reverse()
            return tuple(o)

        back_traces = tuple(tail(o[1].trace) for o in backs)
        gained = []
        if len(backs) == 1:
            s = backs[0][1]
            gained = [(c, v) for c, v in s.bools.items() if c not in start_facts[1]]
        # exits
        res = []
        for o in outs:
            if o[0] == "back":
                continue
            s = o[1]
            kk = self.pin(pre, s, backs, k, start_facts[0], cur_state)
            m = {}
            kval = kk if kk is not None else k
            if kk is not None:
                m[k] = kk
            mm = {}
            for acc, how in m_exit.items():
                if how[0] == "acc":
                    v0 = how[1]
                    if how[2] == "rep":
                        mm[acc] = seq(as_segs(v0) + (mk("rep", kval, bv, how[3]),))
                    else:
                        mm[acc] = seq(as_segs(v0) + (mk("repalt", kval, bv, how[3]),))
                else:
                    mm[acc] = self.close_upd(how, kval, k, bv, acc)
            s = self.subst_state(s, mm, m)
            if s is None:
                continue
            body_tail = tuple(self.subst_event(e, mm, m) for e in tail(s.trace))
            s.trace = base
            if any(back_traces):
                s.trace = (s.trace, ("loop", (kval, bv, k), tuple(
                    tuple(self.subst_event(e, {}, {}) for e in bt) for bt in back_traces),
                    (frame.body["path"], key[1]), m_exit_repr(m_exit)))
            for e in body_tail:
                s.trace = (s.trace, e)
            if gained:
                fs = []
                for c, v in gained:
                    cb = subst(c, {k: bv})
                    if k in atoms(c) or bv in atoms(cb):
                        fs.append((cb, v))
                if fs:
                    s.alls = s.alls + (("all", bv, kval, tuple(fs)),)
            for p in opaque:
                s.taint("loop:%s" % (frame.body["path"],))
            s.ctr = max(s.ctr, pre_ctr + 1)
            # payload may be a value for python-level loops
            pl = o[2]
            if isinstance(pl, V):
                pl = subst(subst(pl, mm), m)
            res.append((o[0], s, pl))
        if not res:
            # no way out found symbolically: infinite loop or imprecise
            return None
        return res, opaque

    def add_lenfacts(self, st, k):
        pass

    def close_upd(self, how, kval, k, bv, acc):
        v0, info = how[1], how[2]
        if not info:
            return mk("unk", "upd", 0)
        idx, val, off = info
        # idx = off + k ; val(k)
        return mk("fillto", v0, off, kval, bv, subst(val, {k: bv}))

    def template(self, v0, vs, path, guess, k, key):
        """structural template of a changing value"""
        if all(v is v0 for v in vs):
            return ("const", v0)
        if v0.k == "adt" and all(v.k == "adt" and v.a[0] == v0.a[0] and v.a[1] == v0.a[1] and
                                 len(v.a[2]) == len(v0.a[2]) for v in vs):
            return ("adt", v0.a[0], v0.a[1], [self.template(x, [v.a[2][i] for v in vs], path + (i,), guess, k, key)
                                              for i, x in enumerate(v0.a[2])])
        if v0.k == "tup" and all(v.k == "tup" and len(v.a) == len(v0.a) for v in vs):
            return ("tup", [self.template(x, [v.a[i] for v in vs], path + (i,), guess, k, key)
                            for i, x in enumerate(v0.a)])
        if v0.k == "clos" and all(v.k == "clos" and v.a[0] == v0.a[0] for v in vs):
            return ("clos", v0.a[0], [self.template(x, [v.a[1][i] for v in vs], path + (i,), guess, k, key)
                                      for i, x in enumerate(v0.a[1])])
        if (v0.k.startswith("it") or v0.k in ("view", "sha")) and all(v.k == v0.k and len(v.a) == len(v0.a) for v in vs) and \
                all(isinstance(x, V) for x in v0.a):
            return ("node", v0.k, [self.template(x, [v.a[i] for v in vs], path + (i,), guess, k, key)
                                   for i, x in enumerate(v0.a)])
        # leaf
        if (is_int(v0)) and all(is_int(v) for v in vs):
            d = sub(vs[0], v0)
            if all(sub(v, v0) is d for v in vs):
                guess[path] = ("arith", v0, d)
                return ("leaf", path)
        if v0.k in ("seq", "arr", "bytes") or all(v.k in ("seq",) for v in vs):
            s0 = as_segs(v0)
            good = True
            for v in vs:
                if v is v0 and not all(x is v0 for x in vs):
                    continue        # a pass that adds nothing
                if v.k == "upd" or length(v) is length(v0):
                    good = False
                    break
                sv = as_segs(v)
                if not is_prefix(s0, sv):
                    good = False
                    break
            if good:
                acc = mk("acc", str(path), str(key), k)
                guess[path] = ("acc", acc, v0)
                return ("leaf", path)
        if any(v.k == "upd" for v in vs) or (v0.k in ("arr", "rept", "bytes", "upd") and
                                             all(length(v) is length(v0) for v in vs)):
            a = mk("updv", str(path), str(key), k)
            n = length(v0)
            if n.k == "int":
                ALEN[a] = n.a[0]
            guess[path] = ("upd", a, v0)
            return ("leaf", path)
        return self.mk_opaque(path, v0, vs, guess, k, key)

    def mk_opaque(self, path, v0, vs, guess, k, key):
        s = mk("loopvar", str(path), str(key), k)
        if v0.k == "bool" or any(v.k in ("bool", "not", "and", "nn", "eqz", "eq") for v in vs):
            pass
        if is_int(v0):
            lo = None
            r = [lin_range(v) for v in [v0] + [x for x in vs]]
            RANGE[s] = (min(x[0] for x in r) if all(x[0] is not None for x in r) else None, None)
            if RANGE[s][0] is not None and RANGE[s][0] > 0:
                RANGE[s] = (0, None)
            if RANGE[s][0] is not None and RANGE[s][0] < 0:
                RANGE[s] = (None, None)
        n = length(v0) if v0.k in ("arr", "bytes", "rept", "upd") or v0 in ALEN else None
        if n is not None and n.k == "int" and all(length(v) is n for v in vs):
            ALEN[s] = n.a[0]
        guess[path] = ("opaque", s, v0)
        return ("leaf", path)

    def instantiate(self, tm, guess, k, pre):
        if tm[0] == "const":
            return tm[1]
        if tm[0] == "adt":
            return adt(tm[1], tm[2], *[self.instantiate(x, guess, k, pre) for x in tm[3]])
        if tm[0] == "tup":
            return mk("tup", *[self.instantiate(x, guess, k, pre) for x in tm[1]])
        if tm[0] == "clos":
            return mk("clos", tm[1], tuple(self.instantiate(x, guess, k, pre) for x in tm[2]))
        if tm[0] == "node":
            return mk(tm[1], *[self.instantiate(x, guess, k, pre) for x in tm[2]])
        g = guess[tm[1]]
        if g[0] == "arith":
            return add(g[1], mul(g[2], k))
        if g[0] == "geo":
            return mul(g[1], pow2(k))
        return g[1] if g[0] != "acc" else seq((mk("cat", g[1]),))

    def verify(self, tm, vs, guess, k, pre, segs_of, key, backs, bv):
        if tm[0] == "const":
            if all(v is tm[1] for v in vs):
                return True
            return False if self._refine_const(tm, vs, guess, k, key) else False
        if tm[0] == "adt":
            if not all(v.k == "adt" and v.a[0] == tm[1] and v.a[1] == tm[2] for v in vs):
                return self._to_opaque(tm, vs, guess, k, key, pre)
            r = True
            for i, x in enumerate(tm[3]):
                if x[0] == "const" and not all(v.a[2][i] is x[1] for v in vs):
                    tm[3][i] = self.template(x[1], [v.a[2][i] for v in vs], ("ref", str(tm[1]), i, str(key), id(tm)), guess, k, key)
                    r = False
                    continue
                r = self.verify(x, [v.a[2][i] for v in vs], guess, k, pre, segs_of, key, backs, bv) and r
            return r
        if tm[0] == "tup":
            if not all(v.k == "tup" and len(v.a) == len(tm[1]) for v in vs):
                return False
            r = True
            for i, x in enumerate(tm[1]):
                if x[0] == "const" and not all(v.a[i] is x[1] for v in vs):
                    tm[1][i] = self.template(x[1], [v.a[i] for v in vs], ("ref", "tup", i, str(key), id(tm)), guess, k, key)
                    r = False
                    continue
                r = self.verify(x, [v.a[i] for v in vs], guess, k, pre, segs_of, key, backs, bv) and r
            return r
        if tm[0] in ("clos", "node"):
            sel = (lambda v, i: v.a[1][i]) if tm[0] == "clos" else (lambda v, i: v.a[i])
            kind = "clos" if tm[0] == "clos" else tm[1]
            if not all(v.k == kind for v in vs):
                return False
            r = True
            for i, x in enumerate(tm[2]):
                if x[0] == "const" and not all(sel(v, i) is x[1] for v in vs):
                    tm[2][i] = self.template(x[1], [sel(v, i) for v in vs], ("ref", kind, i, str(key), id(tm)), guess, k, key)
                    r = False
                    continue
                r = self.verify(x, [sel(v, i) for v in vs], guess, k, pre, segs_of, key, backs, bv) and r
            return r
        p = tm[1]
        g = guess[p]
        if g[0] == "arith":
            want = add(add(g[1], mul(g[2], k)), g[2])
            if all(v is want or o[1].norm(sub(v, want)) is integer(0) for v, o in zip(vs, backs)):
                return True
            # geometric?
            cur = add(g[1], mul(g[2], k))
            if g[1].k == "int" and g[2] is g[1] and all(v is scale(cur, 2) for v in vs):
                guess[p] = ("geo", g[1])
                return False
            self.mk_opaque(p, g[1], vs, guess, k, key)
            return False
        if g[0] == "geo":
            want = mul(g[1], pow2(add(k, integer(1))))
            if all(v is want for v in vs):
                return True
            self.mk_opaque(p, g[1], vs, guess, k, key)
            return False
        if g[0] == "acc":
            acc = g[1]
            alts = []
            for v in vs:
                sv = as_segs(v)
                if not sv or not (sv[0].k == "cat" and sv[0].a[0] is acc) or any(acc in atoms(x) for x in sv[1:]):
                    if len(sv) == 1 and sv[0].k == "cat" and sv[0].a[0] is acc:
                        alts.append(())
                        continue
                    self.mk_opaque(p, g[2], vs, guess, k, key)
                    return False
                alts.append(tuple(sv[1:]))
            segs_of[p] = alts
            return True
        if g[0] == "upd":
            a = g[1]
            infos = []
            for v in vs:
                if v.k == "upd" and v.a[0] is a:
                    idx = v.a[1]
                    off = sub(idx, k)
                    if k not in atoms(off) and (a not in atoms(v.a[2]) or self._reads_own(v.a[2], a, idx)):
                        val = self._own_to_v0(v.a[2], a, g[2], idx)
                        if val is not None and a not in atoms(val):
                            infos.append((idx, val, off))
                            continue
                infos = None
                break
            if infos and all(i == infos[0] for i in infos):
                segs_of[p] = infos[0]
                return True
            self.mk_opaque(p, g[2], vs, guess, k, key)
            return False
        if g[0] == "opaque":
            segs_of[p] = [v for v in vs]
            return True
        return False

    def _refine_const(self, tm, vs, guess, k, key):
        return True

    def _to_opaque(self, tm, vs, guess, k, key, pre):
        return False

    def _reads_own(self, val, a, idx):
        return True

    def _own_to_v0(self, val, a, v0, idx):
        """elem(a, i) with i >= idx has not been written yet"""
        m = {}
        for x in atoms(val):
            if x.k == "elem" and x.a[0] is a:
                d = sub(x.a[1], idx)
                if d.k == "int" and d.a[0] >= 0:
                    y = elem(v0, x.a[1])
                    if x in RANGE:
                        RANGE.setdefault(y, RANGE[x]) if y.k not in ("int", "lin") else None
                    m[x] = y
                else:
                    return None
        return subst(val, m) if m else val

    def pin(self, pre, s, backs, k, old, cur_state):
        """the value of the iteration counter at this exit, if determined"""
        new = [f for f in s.lin if f not in old]
        for f in new:
            c, d = lin_of(f)
            ck = d.get(k)
            if ck is None or ck <= 0:
                continue
            # f: ck*k + rest >= 0 at the exit; candidate invariant: ck*k + rest <= 0
            inv = scale(f, -1)
            at0 = subst(inv, {k: integer(0)})
            if not pre.prove(at0):
                continue
            nxt = subst(inv, {k: add(k, integer(1))})
            if not all(o[1].prove(nxt) for o in backs):
                continue
            rest = mklin(c, {x: n for x, n in d.items() if x is not k})
            r = pre.norm(rest)
            if ck == 1:
                return scale(r, -1)
            q = T._divide(r, ck)
            if q is not None:
                return scale(q, -1)
        # an equality on k
        if k in s.eqs and k not in atoms(s.eqs[k]):
            return s.eqs[k]
        return None

    def subst_state(self, s, mm, m):
        """apply closed forms and the exit value of k"""
        s = s.copy()
        if not mm and not m:
            return s

        def f(v):
            if mm:
                v = subst(v, mm)
            if m:
                v = subst(v, m)
            return v
        s.cells = {fk(c, f): f(v) for c, v in s.cells.items()}
        s.held = tuple(f(g) for g in s.held)
        lin, s.lin = s.lin, []
        eqs, s.eqs = s.eqs, {}
        for a, v in eqs.items():
            a2, v2 = f(a), f(v)
            if a2 is a:
                s.eqs[a] = v2
            else:
                if not s.add_eq(sub(a2, v2)):
                    return None
        for x in lin:
            if not s.add_lin(f(x)):
                return None
        s.bools = {f(c): v for c, v in s.bools.items()}
        for c, v in list(s.bools.items()):
            if c.k == "bool":
                if c.a[0] != v:
                    return None
                del s.bools[c]
        s.vars = {f(c): v for c, v in s.vars.items()}
        s.dbover = {d: tuple((f(a), f(b) if b is not None else None) for a, b in l) for d, l in s.dbover.items()}
        s.dbver = {f(d): v for d, v in s.dbver.items()}
        s.alls = tuple(("all", a[1], f(a[2]), tuple((f(c), v) for c, v in a[3])) for a in s.alls)
        return s

    def subst_event(self, e, mm, m):
        def f(v):
            if isinstance(v, V):
                if mm:
                    v = subst(v, mm)
                if m:
                    v = subst(v, m)
                return v
            if isinstance(v, tuple):
                return tuple(f(x) for x in v)
            return v
        if not mm and not m:
            return e
        return tuple(f(x) for x in e)


def fk(c, f):
    if c[0] in ("anon", "lock"):
        return (c[0], f(c[1]))
    return c


def m_exit_repr(m):
    return ()


def is_prefix(a, b):
    if len(b) < len(a):
        return False
    for i, x in enumerate(a):
        if b[i] is not x:
            return False
    return True


def expand(v):
    """small constant-length arrays in explicit form"""
    if v.k == "rept" and v.a[1].k == "int" and v.a[1].a[0] <= 64:
        return mk("arr", tuple([v.a[0]] * v.a[1].a[0]))
    if v.k == "bytes" and len(v.a[0]) <= 64:
        return mk("arr", tuple(integer(b) for b in v.a[0]))
    return v


_trc = {}


def _tr(t):
    """structural key of a trace (traces are persistent lists)"""
    if t is None:
        return 0
    out = []
    while t is not None:
        out.append(_evkey(t[1]))
        t = t[0]
    return tuple(out)


def _evkey(e):
    return tuple(x if isinstance(x, (V, str, int, tuple, bool, type(None))) else str(x) for x in e)


class Call:
    __slots__ = ("callee", "path", "args", "argts", "dt", "site", "frame", "key")

    def __init__(self, callee, path, args, argts, dt, site, frame, key):
        self.callee = callee
        self.path = path
        self.args = args
        self.argts = argts
        self.dt = dt
        self.site = site
        self.frame = frame
        self.key = key


def run_fn(eng, path, args=None, st=None, setup=None):
    """interpret one function from symbolic arguments; returns outcomes"""
    body = eng.P.bodies[path]
    st = st or State()
    names = []
    vals = []
    for i in range(body["argc"]):
        t = body["locals"][i + 1]["t"]
        nm = body["locals"][i + 1].get("name") or "arg%d" % i
        names.append(nm)
        if args is not None and i in args:
            vals.append(args[i])
            continue
        if args is not None and nm in args:
            vals.append(args[nm])
            continue
        d = eng.ty(t)
        s = mk("sym", nm)
        eng.typed(s, t)
        if d["k"] == "ref" and d.get("mut"):
            st.cells[("param", nm)] = s
            vals.append(mk("ref", ("param", nm), ()))
        else:
            vals.append(s)
    if setup:
        setup(st, vals)
    eng.visited.add(path)
    fr = eng.mkframe(body, ("entry", path), 0)
    for i, a in enumerate(vals):
        st.cells[(fr.id, i + 1)] = a
    eng._stack.append(path)
    try:
        outs = eng.run_frame(fr, st)
        # an async fn: run the future it returns
        res = []
        for o in outs:
            if o[0] == "ret" and o[2].k == "clos" and o[2].a[0] in eng.P.bodies and \
                    eng.P.bodies[o[2].a[0]].get("coroutine"):
                res.extend(eng.mod.run_future(eng, o[1], o[2], (path, None), fr, ("entry", path)))
            else:
                res.append(o)
        return res
    finally:
        eng._stack.pop()
