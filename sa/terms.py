"""Hash-consed abstract values (provenance terms) and the linear-inequality
domain used by the value-flow abstract interpreter."""
from fractions import Fraction

U64 = (1 << 64) - 1
U256 = (1 << 256) - 1
LENMAX = (1 << 63) - 1


class V:
    __slots__ = ("k", "a", "id", "_atoms", "_show")

    def __repr__(self):
        return show(self)


_table = {}
_next = [0]


def mk(k, *a):
    key = (k, a)
    v = _table.get(key)
    if v is None:
        v = V()
        v.k = k
        v.a = a
        v.id = _next[0]
        v._show = None
        _next[0] += 1
        _table[key] = v
    return v


UNIT = mk("tup")
TRUE = mk("bool", True)
FALSE = mk("bool", False)


def boolv(b):
    return TRUE if b else FALSE


def integer(n):
    return mk("int", n)


def adt(path, variant, *fields):
    return mk("adt", path, variant, tuple(fields))


OPTION = "std::option::Option"
RESULT = "std::result::Result"
CFLOW = "std::ops::ControlFlow"
POLL = "std::task::Poll"
ORDERING = "std::cmp::Ordering"
NONE = adt(OPTION, 0)


def some(x):
    return adt(OPTION, 1, x)


def ok(x):
    return adt(RESULT, 0, x)


def err(x):
    return adt(RESULT, 1, x)


ERRV = mk("err")
LESS, EQUAL, GREATER = adt(ORDERING, 0), adt(ORDERING, 1), adt(ORDERING, 2)

# ------------------------------------------------------------------ linear
RANGE = {}   # V -> (lo, hi) known from its type
TEXT = set()          # opaque terms whose static type is valid UTF-8 text
ALEN = {}    # V -> int, arrays of known length


def lin_of(v):
    if v.k == "int":
        return v.a[0], {}
    if v.k == "lin":
        return v.a[0], dict(v.a[1])
    return 0, {v: 1}


def mklin(c, d):
    d = {a: k for a, k in d.items() if k != 0}
    if not d:
        return integer(c)
    if c == 0 and len(d) == 1:
        (a, k), = d.items()
        if k == 1:
            return a
    return mk("lin", c, tuple(sorted(d.items(), key=lambda x: x[0].id)))


def add(a, b):
    c1, d1 = lin_of(a)
    c2, d2 = lin_of(b)
    for k, v in d2.items():
        d1[k] = d1.get(k, 0) + v
    return mklin(c1 + c2, d1)


def scale(a, n):
    c, d = lin_of(a)
    return mklin(c * n, {k: v * n for k, v in d.items()})


def sub(a, b):
    return add(a, scale(b, -1))


def mul(a, b):
    if a.k == "int":
        return scale(b, a.a[0])
    if b.k == "int":
        return scale(a, b.a[0])
    # distribute over sums so that (x+1)*p and x*p+p agree
    ca, da = lin_of(a)
    cb, db = lin_of(b)
    out = integer(ca * cb)
    for x, n in da.items():
        out = add(out, scale(x, n * cb))
    for y, m in db.items():
        out = add(out, scale(y, m * ca))
    for x, n in da.items():
        for y, m in db.items():
            fs = []
            for z in (x, y):
                fs.extend(z.a[0] if z.k == "mul" else (z,))
            fs.sort(key=lambda q: q.id)
            out = add(out, scale(mk("mul", tuple(fs)), n * m))
    return out


def atom_range(a):
    r = RANGE.get(a)
    k = a.k
    if k in ("len", "k", "cnt"):
        b = (0, LENMAX)
    elif k in ("nb", "lun"):
        b = (0, 32)
    elif k == "clz":
        b = (0, 256)
    elif k == "pow2":
        b = (1, None)
    elif k == "rem":
        m = a.a[1]
        b = (0, m.a[0] - 1) if m.k == "int" else (0, None)
    elif k in ("div", "shr"):
        lo, hi = lin_range(a.a[0])
        n = a.a[1]
        if n.k == "int" and lo is not None and lo >= 0:
            d = n.a[0] if k == "div" else (1 << n.a[0])
            b = (lo // d, None if hi is None else hi // d) if d else (0, None)
        else:
            b = (None, None)
    elif k == "band":
        his = [lin_range(x)[1] for x in a.a[:2]]
        his = [h for h in his if h is not None]
        b = (0, min(his) if his else None)
    elif k == "mul":
        los = [atom_range(x)[0] for x in a.a[0]]
        b = (0, None) if all(l is not None and l >= 0 for l in los) else (None, None)
    else:
        b = (None, None)
    if r is None:
        return b
    lo = r[0] if b[0] is None else (b[0] if r[0] is None else max(r[0], b[0]))
    hi = r[1] if b[1] is None else (b[1] if r[1] is None else min(r[1], b[1]))
    return lo, hi


def lin_range(v, bounds=None):
    c, d = lin_of(v)
    lo = hi = c
    for a, k in d.items():
        r = atom_range(a)
        if bounds and a in bounds:
            q = bounds[a]
            r = (q[0] if r[0] is None else (r[0] if q[0] is None else max(r[0], q[0])),
                 q[1] if r[1] is None else (r[1] if q[1] is None else min(r[1], q[1])))
        l, h = r if k > 0 else (r[1], r[0])
        lo = None if lo is None or l is None else lo + k * l
        hi = None if hi is None or h is None else hi + k * h
    return lo, hi


def tighten(c, d):
    """gcd-normalise sum >= 0 over the integers"""
    from math import gcd
    g = 0
    for k in d.values():
        g = gcd(g, abs(k))
    if g > 1:
        c = c // g
        d = {a: k // g for a, k in d.items()}
    return c, d


def prove_ge0(L, facts, depth=4, bounds=None):
    """Is L >= 0 entailed by the linear facts (each F >= 0) and type ranges?"""
    c, d = lin_of(L)
    return _prove(c, d, [lin_of(f) for f in facts], depth, bounds, set())


def _bound(c, d, bounds):
    lo = c
    for a, k in d.items():
        r = atom_range(a)
        if bounds and a in bounds:
            q = bounds[a]
            r = (q[0] if r[0] is None else (r[0] if q[0] is None else max(r[0], q[0])),
                 q[1] if r[1] is None else (r[1] if q[1] is None else min(r[1], q[1])))
        x = r[0] if k > 0 else r[1]
        if x is None:
            return None
        lo += k * x
    return lo


def _prove(c, d, facts, depth, bounds, seen):
    lo = _bound(c, d, bounds)
    if lo is not None and lo >= 0:
        return True
    if depth == 0 or not d:
        return False
    key = (c, tuple(sorted((a.id, k) for a, k in d.items())))
    if key in seen:
        return False
    seen.add(key)
    for fc, fd in facts:
        for a, k in d.items():
            fk = fd.get(a)
            if fk is None or (fk > 0) != (k > 0):
                continue
            t = Fraction(k, fk)
            nd = dict(d)
            for x, y in fd.items():
                z = nd.get(x, 0) - t * y
                if z == 0:
                    nd.pop(x, None)
                else:
                    nd[x] = z
            if len(nd) > len(d) + 2:
                continue
            if _prove(c - t * fc, nd, facts, depth - 1, bounds, seen):
                return True
    return False


# ------------------------------------------------------------------ bools
def nn(L):
    """L >= 0"""
    c, d = lin_of(L)
    if not d:
        return boolv(c >= 0)
    lo, hi = lin_range(L)
    if lo is not None and lo >= 0:
        return TRUE
    if hi is not None and hi < 0:
        return FALSE
    c, d = tighten(c, d)
    return mk("nn", mklin(c, d))


def lt(a, b):
    return nn(sub(sub(b, a), integer(1)))


def le(a, b):
    return nn(sub(b, a))


def eqz(L):
    c, d = lin_of(L)
    if not d:
        return boolv(c == 0)
    lo, hi = lin_range(L)
    if (lo is not None and lo > 0) or (hi is not None and hi < 0):
        return FALSE
    # canonical sign: the first atom has a positive coefficient
    first = min(d, key=lambda x: x.id)
    if d[first] < 0:
        c, d = -c, {a: -k for a, k in d.items()}
    return mk("eqz", mklin(c, d))


def ieq(a, b):
    return eqz(sub(a, b))


def neg(v):
    if v.k == "bool":
        return boolv(not v.a[0])
    if v.k == "not":
        return v.a[0]
    return mk("not", v)


SEQK = ("seq", "arr", "bytes", "be", "hash", "rept", "slice", "str")


def eq(a, b):
    if a is b:
        return TRUE
    if is_int(a) or is_int(b):
        return ieq(a, b)
    if a.k == "adt" and b.k == "adt" and a.a[0] == b.a[0]:
        if a.a[1] != b.a[1]:
            return FALSE
        r = TRUE
        for x, y in zip(a.a[2], b.a[2]):
            r = conj(r, eq(x, y))
        return r
    if a.k == "tup" and b.k == "tup" and len(a.a) == len(b.a):
        r = TRUE
        for x, y in zip(a.a, b.a):
            r = conj(r, eq(x, y))
        return r
    if a.k == "bool":
        return b if a.a[0] else neg(b)
    if b.k == "bool":
        return a if b.a[0] else neg(a)
    if a.k == "bytes" and b.k == "bytes":
        return FALSE
    if a.k == "be" and b.k == "be" and a.a[0] == b.a[0]:
        return ieq(a.a[1], b.a[1])
    for x, y in ((a, b), (b, a)):
        if x.k == "be" and y.k == "bytes" and len(y.a[0]) == x.a[0]:
            return ieq(x.a[1], integer(int.from_bytes(bytes(y.a[0]), "big")))
    if a.k in SEQK or b.k in SEQK:
        la, lb = length(a), length(b)
        if la.k == "int" and lb.k == "int" and la is not lb:
            return FALSE
        if a.k in ("seq", "arr", "bytes") and b.k in ("seq", "arr", "bytes"):
            sa, sb = list(as_segs(a)), list(as_segs(b))
            n = 0
            while sa and sb and sa[0] is sb[0]:
                sa.pop(0)
                sb.pop(0)
                n += 1
            if sa and sb and sa[0].k == "b" and sb[0].k == "b" and eq(sa[0].a[0], sb[0].a[0]) is FALSE:
                return FALSE
    if a.id > b.id:
        a, b = b, a
    return mk("eq", a, b)


def conj(a, b):
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is FALSE or b is FALSE:
        return FALSE
    if a is b:
        return a
    return mk("and", a, b)


def disj(a, b):
    return neg(conj(neg(a), neg(b)))


def is_int(v):
    return v.k in ("int", "lin", "len", "k", "cnt", "nb", "lun", "mul", "div", "rem", "clz", "pow2",
                   "shr", "shl", "band") or RANGE.get(v) is not None


# ------------------------------------------------------------------ bytes
def arr_items(v):
    return v.a[0] if v.k == "arr" else None


def length(v):
    """number of elements of an array, slice, vector or string value"""
    k = v.k
    if v in ALEN:
        return integer(ALEN[v])
    if k == "arr":
        return integer(len(v.a[0]))
    if k == "bytes" or k == "str":
        return integer(len(v.a[0]))
    if k in ("hash",):
        return integer(32)
    if k == "be":
        return integer(v.a[0])
    if k == "slice":
        return v.a[2]
    if k == "rept":
        return v.a[1]
    if k in ("upd", "fillto", "splice"):
        return length(v.a[0])
    if k == "tab":
        return v.a[0]
    if k == "rev":
        return length(v.a[0])
    if k == "seq":
        t = integer(0)
        for s in v.a[0]:
            t = add(t, seglen(s))
        return t
    return mk("len", v)


def seglen(s):
    k = s.k
    if k == "b":
        return integer(1)
    if k == "cat":
        return length(s.a[0])
    if k == "u256":
        return add(integer(1), mk("nb", s.a[0]))
    if k == "rep":
        # rep(count, bv, segs, alt?)
        per = integer(0)
        for x in s.a[2]:
            per = add(per, seglen(x))
        return mul(s.a[0], per)
    return mk("len", s)


def flatten(segs):
    out = []
    for s in segs:
        if s.k == "cat":
            x = s.a[0]
            if x.k == "seq":
                out.extend(x.a[0])
                continue
            if x.k == "arr":
                out.extend(mk("b", e) for e in x.a[0])
                continue
            if x.k == "bytes":
                out.extend(mk("b", integer(e)) for e in x.a[0])
                continue
            if x.k == "rept" and x.a[1].k == "int" and x.a[1].a[0] <= 64:
                out.extend([mk("b", x.a[0])] * x.a[1].a[0])
                continue
            if x.k == "slice" and x.a[2].k == "int" and x.a[2].a[0] == 0:
                continue
            if x.k == "slice" and out and out[-1].k == "cat":
                y = out[-1].a[0]
                if y.k == "slice" and y.a[0] is x.a[0] and add(y.a[1], y.a[2]) is x.a[1]:
                    out[-1] = mk("cat", slice_(x.a[0], y.a[1], add(y.a[2], x.a[2])))
                    continue
            if length(x).k == "int" and length(x).a[0] == 0:
                continue
        if s.k == "rep":
            cnt, bv, body = s.a[0], s.a[1], s.a[2]
            if cnt.k == "int" and cnt.a[0] == 0:
                continue
            if len(body) == 0:
                continue
            # rep of single elements of one array over its whole length
            if len(body) == 1 and body[0].k == "b":
                e = body[0].a[0]
                w = whole_of(e, bv, cnt)
                if w is not None:
                    out.extend(flatten([mk("cat", w)]))
                    continue
        out.append(s)
    return runs(out)


def runs(out):
    """consecutive elements of one array are a slice of it"""
    if not any(s.k == "b" and s.a[0].k == "elem" for s in out):
        return tuple(out)
    res = []
    i = 0
    while i < len(out):
        s = out[i]
        if s.k == "b" and s.a[0].k == "elem":
            x, first = s.a[0].a
            j = i + 1
            at = add(first, integer(1))
            while j < len(out) and out[j].k == "b" and out[j].a[0].k == "elem" and out[j].a[0].a[0] is x \
                    and out[j].a[0].a[1] is at:
                j += 1
                at = add(at, integer(1))
            if j - i >= 2:
                part = mk("cat", slice_(x, first, integer(j - i)))
                if res and res[-1].k == "cat" and part.a[0].k == "slice":
                    res = list(flatten(res + [part]))
                else:
                    res.append(part)
                i = j
                continue
            # one more element of the array before
            if res and res[-1].k == "cat" and res[-1].a[0].k == "slice" and res[-1].a[0].a[0] is x and \
                    add(res[-1].a[0].a[1], res[-1].a[0].a[2]) is first:
                y = res[-1].a[0]
                res[-1] = mk("cat", slice_(x, y.a[1], add(y.a[2], integer(1))))
                i += 1
                continue
        if s.k == "cat" and s.a[0].k == "slice" and res and res[-1].k == "b" and res[-1].a[0].k == "elem" and \
                res[-1].a[0].a[0] is s.a[0].a[0] and add(res[-1].a[0].a[1], integer(1)) is s.a[0].a[1]:
            y = s.a[0]
            res[-1] = mk("cat", slice_(y.a[0], sub(y.a[1], integer(1)), add(y.a[2], integer(1))))
            i += 1
            continue
        res.append(s)
        i += 1
    return tuple(res)


def whole_of(e, bv, cnt):
    """rep_{bv<cnt} e == the elements of which array? (or None)"""
    if e.k == "elem" and e.a[1] is bv and not mentions(e.a[0], bv):
        if length(e.a[0]) is cnt:
            return e.a[0]
        return slice_(e.a[0], integer(0), cnt)
    if e.k == "elem" and not mentions(e.a[0], bv):
        c, d = lin_of(e.a[1])
        if d.get(bv) == 1:
            off = sub(e.a[1], bv)
            return slice_(e.a[0], off, cnt)
        if d.get(bv) == -1:
            # descending walk
            off = add(e.a[1], bv)            # first index
            lo = add(sub(off, cnt), integer(1))
            if not mentions(off, bv):
                return reverse_(slice_(e.a[0], lo, cnt))
    return None


def reverse_(x):
    if x.k == "rev":
        return x.a[0]
    return mk("rev", x)


def seq(segs):
    f = flatten(segs)
    if len(f) == 1 and f[0].k == "cat":
        return f[0].a[0]
    if f and all(s.k == "b" for s in f):
        return mk("arr", tuple(s.a[0] for s in f))
    return mk("seq", f)


EMPTY = mk("seq", ())


def as_segs(v):
    if v.k == "seq":
        return v.a[0]
    return flatten([mk("cat", v)])


def slice_(base, off, n):
    if base.k == "slice":
        return slice_(base.a[0], add(base.a[1], off), n)
    if off.k == "int" and off.a[0] == 0 and length(base) is n:
        return base
    if n.k == "int" and n.a[0] == 0:
        return EMPTY
    if base.k in ("seq", "arr", "bytes"):
        r = _slice_segs(as_segs(base), off, n)
        if r is not None:
            return seq(r)
    if base.k == "rept":
        return mk("rept", base.a[0], n)
    if base.k in ("upd", "fillto", "splice") and base.k == "upd":
        pass
    if base.k == "cat":
        pass
    return mk("slice", base, off, n)


def _const(v):
    return v.a[0] if v.k == "int" else None


def _slice_segs(segs, off, n):
    """sub-sequence if off and off+n fall on computable boundaries"""
    out = []
    i = 0
    # skip `off`
    rest = off
    segs = list(segs)
    while True:
        if _const(rest) == 0:
            break
        if i >= len(segs):
            return None
        L = seglen(segs[i])
        d = sub(rest, L)
        c, dd = lin_of(d)
        if not dd and c >= 0:
            rest = d
            i += 1
            continue
        # the rest of the offset lies inside this segment, or is not comparable
        s = segs[i]
        lo, hi = lin_range(d)
        if lo is not None and lo >= 0:
            rest = d
            i += 1
            continue
        if s.k == "rep":
            # aligned element of a repetition
            per = integer(0)
            for x in s.a[2]:
                per = add(per, seglen(x))
            if per.k == "int" and per.a[0] > 0:
                q = _divide(rest, per.a[0])
                if q is not None and n is per:
                    return [subst(x, {s.a[1]: q}) for x in s.a[2]]
                if q is not None:
                    left = sub(s.a[0], q)
                    if sub(mul(left, per), n).k == "int" and i == len(segs) - 1:
                        body = tuple(subst(x, {s.a[1]: add(s.a[1], q)}) for x in s.a[2])
                        return [mk("rep", left, s.a[1], body)]
            return None
        if s.k == "cat" and hi is not None and hi <= 0:
            # cut inside an opaque segment
            part = slice_(s.a[0], rest, sub(L, rest))
            segs[i] = mk("cat", part)
            break
        if s.k == "cat" and i == len(segs) - 1:
            return [mk("cat", slice_(s.a[0], rest, n))]
        return None
    rest = n
    while True:
        if _const(rest) == 0:
            return out
        if i >= len(segs):
            return None
        s = segs[i]
        L = seglen(s)
        d = sub(rest, L)
        c, dd = lin_of(d)
        if not dd and c >= 0:
            out.append(s)
            rest = d
            i += 1
            continue
        lo, hi = lin_range(d)
        if lo is not None and lo >= 0:
            out.append(s)
            rest = d
            i += 1
            continue
        if s.k == "cat" and hi is not None and hi <= 0:
            out.append(mk("cat", slice_(s.a[0], integer(0), rest)))
            return out
        if s.k == "rep" and not out:
            per = integer(0)
            for x in s.a[2]:
                per = add(per, seglen(x))
            if per is rest:
                return [subst(x, {s.a[1]: integer(0)}) for x in s.a[2]]
        return None


def _divide(L, n):
    c, d = lin_of(L)
    if c % n or any(k % n for k in d.values()):
        return None
    return mklin(c // n, {a: k // n for a, k in d.items()})


def elem(base, idx):
    k = base.k
    if k == "arr" and idx.k == "int" and 0 <= idx.a[0] < len(base.a[0]):
        return base.a[0][idx.a[0]]
    if k == "bytes" and idx.k == "int" and 0 <= idx.a[0] < len(base.a[0]):
        return integer(base.a[0][idx.a[0]])
    if k == "slice":
        return elem(base.a[0], add(base.a[1], idx))
    if k == "rept":
        return base.a[0]
    if k == "rev":
        return elem(base.a[0], sub(sub(length(base.a[0]), integer(1)), idx))
    if k == "upd":
        d = sub(base.a[1], idx)
        if _const(d) == 0:
            return base.a[2]
        lo, hi = lin_range(d)
        if (lo is not None and lo > 0) or (hi is not None and hi < 0):
            return elem(base.a[0], idx)
    if k == "tab":
        # tab(n, bv, body)
        return subst(base.a[2], {base.a[1]: idx})
    if k == "fillto":
        # fillto(v0, from, count, bv, body): elements [from, from+count)
        rel = sub(idx, base.a[1])
        if _const(sub(rel, base.a[2])) is not None and _const(sub(rel, base.a[2])) >= 0:
            return elem(base.a[0], idx)
    if k == "seq":
        rest = idx
        for s in base.a[0]:
            if s.k == "b":
                if _const(rest) == 0:
                    return s.a[0]
                rest = sub(rest, integer(1))
                if lin_range(rest)[0] is None or lin_range(rest)[0] < 0:
                    break
                continue
            L = seglen(s)
            d = sub(rest, L)
            lo, hi = lin_range(d)
            if lo is not None and lo >= 0:
                rest = d
                continue
            if s.k == "cat" and len(base.a[0]) == 1:
                return elem(s.a[0], rest)
            if s.k == "cat" and hi is not None and hi < 0:
                return elem(s.a[0], rest)
            if s.k == "u256" and _const(rest) == 0:
                return mk("nb", s.a[0])
            if s.k == "rep" and len(s.a[2]) == 1 and s.a[2][0].k == "b":
                if s is base.a[0][-1]:
                    return subst(s.a[2][0].a[0], {s.a[1]: rest})
            break
    return mk("elem", base, idx)


# ------------------------------------------------------------------ generic
def mentions(v, x):
    return x in atoms(v)


_atoms_cache = {}


def atoms(v):
    """all sub-terms"""
    r = _atoms_cache.get(v)
    if r is not None:
        return r
    out = {v}

    def walk(t):
        if isinstance(t, V):
            out.update(atoms(t))
        elif isinstance(t, tuple):
            for x in t:
                walk(x)
    for x in v.a:
        walk(x)
    r = frozenset(out)
    _atoms_cache[v] = r
    return r


SMART = {}


def rebuild(k, a):
    f = SMART.get(k)
    if f:
        return f(*a)
    return mk(k, *a)


def _lin_re(c, items):
    out = integer(c)
    for x, n in items:
        out = add(out, scale(x, n))
    return out


def _mul_re(fs):
    out = integer(1)
    for f in fs:
        out = mul(out, f)
    return out


def pow2(k):
    if k.k == "int" and k.a[0] >= 0:
        return integer(1 << k.a[0])
    c, d = lin_of(k)
    if c > 0:
        return scale(mk("pow2", mklin(0, d)), 1 << c)
    return mk("pow2", k)


def div(a, n):
    if a.k == "int" and n.k == "int" and n.a[0] > 0 and a.a[0] >= 0:
        return integer(a.a[0] // n.a[0])
    if n.k == "int" and n.a[0] > 0:
        q = _divide(a, n.a[0])
        if q is not None:
            return q
        lo, hi = lin_range(a)
        if lo is not None and hi is not None and lo >= 0 and lo // n.a[0] == hi // n.a[0]:
            return integer(lo // n.a[0])
    return mk("div", a, n)


def rem(a, n):
    if a.k == "int" and n.k == "int" and n.a[0] > 0 and a.a[0] >= 0:
        return integer(a.a[0] % n.a[0])
    if n.k == "int" and n.a[0] > 0 and _divide(a, n.a[0]) is not None:
        return integer(0)
    return mk("rem", a, n)


def clz(x):
    if x.k == "arr" and all(e.k == "int" for e in x.a[0]):
        t = 0
        for e in x.a[0]:
            if e.a[0] == 0:
                t += 8
            else:
                t += 8 - e.a[0].bit_length()
                break
        return integer(t)
    if x.k == "bytes":
        return clz(mk("arr", tuple(integer(b) for b in x.a[0])))
    return mk("clz", x)


SMART.update({
    "lin": _lin_re, "mul": _mul_re, "elem": elem, "slice": slice_, "len": length,
    "nn": nn, "eqz": eqz, "not": neg, "eq": eq, "and": conj, "pow2": pow2, "div": div,
    "rem": rem, "clz": clz, "rev": reverse_,
    "seq": lambda segs: seq(segs),
})


def subst(v, m):
    memo = {}
    keys = set(m)

    def go(t):
        if isinstance(t, V):
            if t in m:
                return m[t]
            r = memo.get(t)
            if r is not None:
                return r
            if not (atoms(t) & keys):
                memo[t] = t
                return t
            a = tuple(go(x) for x in t.a)
            r = rebuild(t.k, a)
            if t in RANGE and r not in RANGE and r.k not in ("int", "lin"):
                RANGE[r] = RANGE[t]
            if t in ALEN and r not in ALEN:
                ALEN[r] = ALEN[t]
            memo[t] = r
            return r
        if isinstance(t, tuple):
            return tuple(go(x) for x in t)
        return t
    return go(v)


# ------------------------------------------------------------------ printing
def show(v, depth=8):
    if v._show is not None:
        return v._show
    r = _show(v, depth)
    if depth == 8:
        v._show = r
    return r


def _show(v, depth):
    if not isinstance(v, V):
        return str(v)
    if depth == 0:
        return "…"
    k, a = v.k, v.a
    d = depth - 1

    def sh(x):
        return show(x, d) if isinstance(x, V) else (
            "[" + ", ".join(sh(y) for y in x) + "]" if isinstance(x, tuple) else str(x))
    if k == "int":
        return str(a[0])
    if k == "bool":
        return str(a[0]).lower()
    if k == "sym":
        return str(a[0])
    if k == "fld":
        return "%s.%s" % (sh(a[0]), a[1])
    if k == "lin":
        return "(" + " + ".join(([str(a[0])] if a[0] else []) +
                                [(sh(x) if n == 1 else "%d*%s" % (n, sh(x))) for x, n in a[1]]) + ")"
    if k == "adt":
        return "%s#%s(%s)" % (a[0].split("::")[-1], a[1], ", ".join(sh(x) for x in a[2]))
    if k == "tup":
        return "(" + ", ".join(sh(x) for x in a) + ")"
    if k == "nn":
        return "%s>=0" % sh(a[0])
    if k == "eqz":
        return "%s==0" % sh(a[0])
    if k == "not":
        return "!(%s)" % sh(a[0])
    if k == "eq":
        return "%s==%s" % (sh(a[0]), sh(a[1]))
    if k == "vf":
        return "%s!%s.%s" % (sh(a[0]), a[1], a[2])
    if k == "static":
        return a[0].split("::")[-1]
    if k == "bytes":
        return "b" + repr(bytes(a[0]))[1:20]
    if k == "call":
        return "%s(%s)" % (a[0].split("::")[-1], ", ".join(sh(x) for x in a[1:]))
    if k in ("closure", "coroutine"):
        return "%s:%s" % (k, a[0])
    return "%s(%s)" % (k, ", ".join(sh(x) for x in a))
