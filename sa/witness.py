"""Consistency of the linear facts of an abstract path.

A path on which something goes wrong is reported only when its facts about lengths, counters and amounts are
consistent: an assignment of integers to their atoms that meets them all is exhibited.  A path whose facts admit no
assignment found here is left undecided, never reported."""
import random, time
from .terms import *


def constraints(st):
    out = []
    for f in st.lin:
        out.append((">=", f))
    for c, v in st.bools.items():
        conv(c, v, out)
    for a, val in st.eqs.items():
        lo, hi = atom_range(a)
        if lo is not None:
            out.append((">=", sub(val, integer(lo))))
        if hi is not None:
            out.append((">=", sub(integer(hi), val)))
    return out


def conv(c, v, out):
    if c.k == "not":
        conv(c.a[0], not v, out)
    elif c.k == "nn":
        L = c.a[0]
        out.append((">=", L if v else sub(scale(L, -1), integer(1))))
    elif c.k == "eqz":
        out.append(("==" if v else "!=", c.a[0]))
    elif c.k == "and" and v or c.k == "or" and not v:
        for x in c.a:
            if isinstance(x, V):
                conv(x, v, out)


def compound(a):
    return a.k in ("div", "rem") and a.a[1].k == "int" and a.a[1].a[0] > 0 or a.k == "mul" and len(a.a) == 2


def base_atoms(L, acc, defs={}):
    for a in lin_of(L)[1]:
        if compound(a):
            for x in a.a:
                if isinstance(x, V):
                    base_atoms(x, acc, defs)
        elif a in defs:
            base_atoms(defs[a], acc, defs)
        else:
            acc.add(a)


def eliminate(cs):
    """equalities that give one atom as a combination of others, with the range that atom then has to keep to"""
    defs, extra = {}, []
    lower = {c[1] for c in cs if c[0] == ">="}
    for op, L in cs:
        if not (op == "==" or op == ">=" and scale(L, -1) in lower):
            continue
        for a, k in sorted(lin_of(L)[1].items(), key=lambda x: x[0].id):
            if k not in (1, -1) or compound(a) or a in defs:
                continue
            e = sub(a, scale(L, k))
            acc = set()
            base_atoms(e, acc, defs)
            if a in acc:
                continue
            defs[a] = e
            lo, hi = atom_range(a)
            if lo is not None:
                extra.append((">=", sub(e, integer(lo))))
            if hi is not None:
                extra.append((">=", sub(integer(hi), e)))
            break
    return defs, extra


def moduli(L, defs, acc):
    for a in lin_of(L)[1]:
        if a.k in ("rem", "div") and compound(a):
            acc.add(a.a[1].a[0])
            moduli(a.a[0], defs, acc)
        elif a in defs:
            moduli(defs[a], defs, acc)


def ev(L, m):
    c, d = lin_of(L)
    for a, k in d.items():
        c += k * evatom(a, m)
    return c


def evatom(a, m):
    if compound(a):
        x = ev(a.a[0], m)
        y = ev(a.a[1], m)
        if a.k == "div":
            return x // y
        if a.k == "rem":
            return x % y
        return x * y
    if a in m:
        return m[a]
    return ev(m[None][a], m)


def holds(c, m):
    v = ev(c[1], m)
    return v >= 0 if c[0] == ">=" else (v == 0 if c[0] == "==" else v != 0)


SEARCH = [0.0]          # seconds spent looking for instances of paths
LIMIT = 120


def witness(st, extra=(), tries=6, steps=3000):
    """an assignment of the numbers of a path that satisfies its facts, or None when a bounded search finds none"""
    t0 = time.time()
    try:
        return search(st, extra, tries, steps, t0 + (10 if SEARCH[0] < LIMIT else 0.02))
    finally:
        SEARCH[0] += time.time() - t0


def search(st, extra, tries, steps, until):
    cs = [c for c in constraints(st) + list(extra) if lin_of(c[1])[1] or not holds(c, {})]
    defs, more = eliminate(cs)
    cs += more
    atoms_ = set()
    for c in cs:
        base_atoms(c[1], atoms_, defs)
    ats = sorted(atoms_, key=lambda a: a.id)
    dom = {}
    for a in ats:
        lo, hi = atom_range(a)
        dom[a] = (-(1 << 300) if lo is None else lo, (1 << 300) if hi is None else hi)
    rnd = random.Random(1)
    for t in range(tries):
        m = {None: defs}
        for a in ats:
            lo, hi = dom[a]
            start = lo if lo > -(1 << 300) else 0
            m[a] = min(hi, start + (0 if t == 0 else rnd.choice((0, 1, 2, 3, 7, 31, 64, 255, 1000))))
        for _ in range(steps):
            if time.time() > until:
                return None
            badc = [c for c in cs if not holds(c, m)]
            if not badc:
                return m
            c = rnd.choice(badc)
            acc = set()
            base_atoms(c[1], acc, defs)
            opts = []
            v = ev(c[1], m)
            mods = set()
            moduli(c[1], defs, mods)
            far = [x for n in mods for x in (n, n - v, n + v, -n, v - n) if x]
            for a in sorted(acc, key=lambda a: a.id):
                for dlt in moves(c, a, m, v) + far:
                    lo, hi = dom[a]
                    nv = max(lo, min(hi, m[a] + dlt))
                    if nv != m[a]:
                        opts.append((a, nv))
            if not opts:
                break
            best = None
            if rnd.random() < 0.15:
                a, nv = rnd.choice(opts)
                m[a] = nv
                continue
            for a, nv in opts:
                old = m[a]
                m[a] = nv
                n = sum(1 for x in cs if not holds(x, m))
                m[a] = old
                if best is None or n < best[0] or n == best[0] and rnd.random() < 0.3:
                    best = (n, a, nv)
            m[best[1]] = best[2]
    return None


def moves(c, a, m, v):
    k = lin_of(c[1])[1].get(a)
    out = [1, -1]
    if k:
        need = -v
        q = need // k
        out += [q, q + 1, q - 1]
        if c[0] == ">=":
            out += [-(-need // k)]
    else:
        out += [v, -v, v // 2, -(v // 2), 8, -8, 32, -32]
    return [x for x in out if x]
