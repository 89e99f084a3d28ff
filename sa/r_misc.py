"""C26, C27, C31 and C32: the transaction pool, compressed files and directory copies."""
from .base import *
from .r_ledger import facts_terms
from .r_num import corner_sizes, run_shape
from . import models as M
from .mcore import ret, W
from .mio import effect

POOL = "txpool::TxPool::"


# ------------------------------------------------------------------ C26
def pool_state(cx, st, cell, names, self0):
    """values of the two collections afterwards"""
    v = st.cells.get(cell, self0)
    if v.k == "adt":
        d = {n[0]: x for n, x in named_fields(cx.P, v) if len(n) == 1}
        return [d.get(n) for n in names]
    return [fld(v, n) for n in names]


def pool_roles(cx):
    """(field with the queue, field with the hashes)"""
    def go():
        h = bsym("hash", 32)
        S = {x.a[0] for o in cx.run(cx.need(POOL + "transaction_exists"), args={1: h}) if o[0] == "ret"
             for t in [o[2]] + list(facts_terms(o[1])) for x in subterms(t) if x.k == "setin"}
        H = {x.a[0] for o in cx.run(cx.need(POOL + "pop")) if o[0] == "ret"
             for x in subterms(o[2]) if x.k == "heapmax"}
        if len(S) != 1 or len(H) != 1:
            cx.undecided("roles", POOL + "pop", "queue and hashes not identified")
            raise Undecided("roles")
        return H.pop(), S.pop()
    return cx.memo("pool_roles", go)


@rule("C26")
def c26(cx):
    """the pool keeps the invariant that its hash set is exactly the set of hashes of its queue and holds none twice: every
    path of push, pop and the constructors preserves it, and len, is_empty, transaction_exists and the iterator read it"""
    P = cx.P
    H, S = pool_roles(cx)
    if H.k != "fld" or S.k != "fld":
        cx.undecided("C26|roles", POOL, "queue and hashes are not fields")
        return
    names = (H.a[1], S.a[1])
    self0 = H.a[0]
    cell = ("param", "self")
    t = sym("transaction")
    th = mk("call", "transaction::Transactionable::hash", t)
    # push
    fn = cx.need(POOL + "push")
    at = fn_where(P, fn)
    seen = set()
    for o in cx.run(fn, args={1: t}, merge=False):
        if o[0] != "ret":
            continue
        st = o[1]
        h1, s1 = pool_state(cx, st, cell, names, self0)
        present = st.truth(mk("setin", S, th))
        seen.add(present)
        if present is True:
            cx.check(h1 is H and s1 is S, "C26|push|present", at, "adding a transaction that is already pooled changes the pool: %s, %s"
                     % (show(h1, 4), show(s1, 4)), st, (h1, s1))
            answer(cx, "C26|push|present answer", at, st, o[2], False, "adding a transaction that is already pooled is not refused")
        elif present is False:
            cx.check(h1 is mk("heappush", H, t), "C26|push|queued", at, "adding a new transaction leaves the queue as %s" % show(h1, 4),
                     st, (h1,))
            cx.check(s1 is mk("setins", S, th), "C26|push|remembered", at, "adding a new transaction leaves the hashes as %s" % show(s1, 4),
                     st, (s1,))
            answer(cx, "C26|push|new answer", at, st, o[2], True, "adding a new transaction is reported as refused")
        else:
            same_pool = h1 is H and s1 is S
            if any(vague(c) for c in facts_terms(st)) or st.unk or vague(h1) or vague(s1):
                cx.undecided("C26|push|membership", at, "membership test not understood")
            elif same_pool and any(x is S or x is H for c in facts_terms(st) for x in subterms(c)):
                cx.undecided("C26|push|membership", at, "refused for another state of the pool")
            elif same_pool:
                cx.check(False, "C26|push|membership", at, "a transaction that is not pooled is not added", st, (o[2],))
            else:
                cx.check(same_pool and o[2].k == "bool" and not o[2].a[0], "C26|push|membership", at,
                         "a transaction is added without testing whether it is already pooled", st, (h1, s1))
    cx.check(False in seen or None in seen, "C26|push|never", at, "no new transaction is ever added")
    # pop
    fn = cx.need(POOL + "pop")
    at = fn_where(P, fn)
    mx = mk("heapmax", H)
    mh = mk("call", "transaction::Transactionable::hash", mx)
    n = 0
    for o in cx.run(fn, merge=False):
        if o[0] != "ret":
            continue
        st = o[1]
        h1, s1 = pool_state(cx, st, cell, names, self0)
        i = st.variant(o[2])
        if i == 0:
            cx.check(h1 is H and s1 is S, "C26|pop|empty", at, "taking nothing changes the pool", st, (h1, s1))
            req_empty(cx, st, H, at)
            continue
        if i is None:
            cx.undecided("C26|pop", at, "result %s" % show(o[2], 4))
            continue
        n += 1
        v = o[2].a[2][0] if o[2].k == "adt" else mk("vf", o[2], 1, 0)
        parts = v.a if v.k == "tup" else ()
        cx.check(len(parts) == 2 and same(st, parts[1], mx), "C26|pop|first", at, "the transaction returned is %s" % show(v, 4), st, (v,))
        cx.check(len(parts) == 2 and same(st, parts[0], mh), "C26|pop|hash", at, "the hash returned with it is %s"
                 % show(parts[0] if parts else v, 4), st, (v,))
        cx.check(h1 is mk("heaprest", H), "C26|pop|queue", at, "taking a transaction leaves the queue as %s" % show(h1, 4), st, (h1,))
        cx.check(s1 is mk("setdel", S, mh) or s1 is S and st.truth(mk("setin", S, mh)) is False, "C26|pop|forgotten", at,
                 "taking a transaction leaves the hashes as %s" % show(s1, 4), st, (s1,))
    cx.check(n > 0, "C26|pop|never", at, "no transaction is ever returned")
    # readers
    h = bsym("hash", 32)
    for m, want in (("len", None), ("is_empty", None), ("transaction_exists", mk("setin", S, h))):
        fn = POOL + m
        if not cx.has(fn):
            continue
        at = fn_where(P, fn)
        for o in cx.run(fn, args={1: h} if m == "transaction_exists" else {}):
            if o[0] != "ret":
                continue
            st, v = o[1], o[2]
            if m == "transaction_exists":
                good = v is want or v.k == "bool" and st.truth(want) is v.a[0]
            else:
                good = False
                for c in (H, S):
                    L = length(c)
                    good |= (same(st, v, L) if m == "len" else
                             v is ieq(L, integer(0)) or v.k == "bool" and st.truth(ieq(L, integer(0))) is v.a[0])
            cx.check(good, "C26|" + m, at, "%s answers %s" % (m, show(v, 4)), st, (v,))
            h1, s1 = pool_state(cx, st, cell, names, self0)
            cx.check(h1 is H and s1 is S, "C26|%s|changes" % m, at, "%s changes the pool" % m, st, (h1, s1))
    for m in ("new", "with_capacity", "<txpool::TxPool as std::default::Default>::default"):
        fn = m if m.startswith("<") else POOL + m
        if not cx.has(fn):
            continue
        for o in cx.run(fn):
            if o[0] != "ret":
                continue
            if o[2].k != "adt":
                cx.undecided("C26|" + m, fn_where(P, fn), "new pool is %s" % show(o[2], 3))
                continue
            d = {k[0]: x for k, x in named_fields(P, o[2]) if len(k) == 1}
            cx.check(d.get(names[0]) is not None and d[names[0]].k == "emptyheap" and d[names[1]].k == "emptyset", "C26|" + m,
                     fn_where(P, fn), "a new pool is not empty: %s" % show(o[2], 4), o[1], (o[2],))


def answer(cx, key, at, st, v, want, text):
    if v.k == "bool":
        cx.check(v.a[0] is want, key, at, text, st)
    else:
        cx.check(st.truth(v) is want, key, at, text, st, (v,))


def req_empty(cx, st, H, at):
    n = length(H)
    if st.truth(ieq(n, integer(0))) is True or st.prove(sub(integer(0), n)):
        cx.ok("C26|pop|nothing", at, "empty")
    else:
        cx.violated("C26|pop|nothing", at, "nothing is returned although the pool holds a transaction", st)


# ------------------------------------------------------------------ C27
CMPS = ("Ord", "PartialOrd", "PartialEq")


def order_impls(P):
    """the comparison operations of pooled transactions"""
    out = {}
    for p in P.bodies:
        if "dyn transaction::Transactionable" not in p or "{" in p.split("::")[-1]:
            continue
        for t in CMPS:
            if "std::cmp::%s for" % t in p:
                out[p.rsplit("::", 1)[1]] = p
    return out


def ts(x):
    return mk("call", "transaction::Transactionable::get_timestamp", x)


def hs(x):
    return mk("call", "transaction::Transactionable::hash", x)


def views(h):
    """(kind, number of parts, element) of the ways a hash is compared"""
    return [("bytes", 32, lambda i: mk("elem", h, i))] + [("words%d" % w, 32 // w, (lambda w: lambda i: mk("elem", mk("words", h, w), i))(w))
                                                         for w in (2, 4, 8, 16)]


def relation(st, a, b):
    """what a path knows of two transactions: sign of the timestamps and (kind, sign) of the hashes"""
    d = sub(ts(a), ts(b))
    t = None
    if st.prove(sub(d, integer(1))):
        t = 1
    elif st.prove(sub(scale(d, -1), integer(1))):
        t = -1
    elif same(st, ts(a), ts(b)):
        t = 0
    h = None
    if st.truth(eq(hs(a), hs(b))) is True or same(st, hs(a), hs(b)):
        return t, (None, 0)
    for kind, f in whole_views():
        x, y = f(hs(a)), f(hs(b))
        if st.truth(eq(x, y)) is True:
            return t, (None, 0)
        v = st.variant(mk("cmp", x, y))
        if v is None:
            v = st.variant(mk("cmp", y, x))
            v = None if v is None else 2 - v
        if v is not None:
            return t, (kind if v != 1 else None, v - 1)
    for (kind, n, f), (_, _, g) in zip(views(hs(a)), views(hs(b))):
        for q in st.alls:
            if q[0] != "all":
                continue
            bv, k, fs = q[1], q[2], q[3]
            e = sub(f(bv), g(bv))
            if not any(c.k == "eqz" and v_ is True and (c.a[0] is e or c.a[0] is scale(e, -1)) for c, v_ in fs):
                continue
            k = st.norm(k)
            if k.k == "int":
                if k.a[0] >= n:
                    return t, (None, 0)
                continue
            x = sub(f(k), g(k))
            if st.prove(sub(x, integer(1))):
                return t, (kind, 1)
            if st.prove(sub(scale(x, -1), integer(1))):
                return t, (kind, -1)
    if any(st.truth(eq(f(hs(a)), f(hs(b)))) is False for _, f in whole_views()):
        return t, ("differ", None)
    for e, val in st.bools.items():
        if e.k == "eq" and any(x.k == "adt" and (x.a[1] == 1) is not val for x in e.a):
            for _, f in whole_views():
                x, y = f(hs(a)), f(hs(b))
                if mk("cmp", x, y) in e.a or mk("cmp", y, x) in e.a:
                    return t, ("differ", None)
    return t, h


def whole_views():
    """(kind, form) of the ways a whole hash is compared, the kinds as in `views`"""
    return [("bytes", lambda h: h)] + [("words%d" % w, (lambda w: lambda h: mk("words", h, w))(w)) for w in (2, 4, 8, 16)]


def by_time(outs, a, b):
    """the outcomes split into older, simultaneous and newer"""
    d = sub(ts(a), ts(b))
    for o in outs:
        for i, f in ((2, nn(sub(d, integer(1)))), (1, ieq(ts(a), ts(b))), (0, nn(sub(scale(d, -1), integer(1))))):
            s = o[1].copy()
            if s.assume(f, True) and s.assume_var(mk("cmp", ts(a), ts(b)), i) and s.assume_var(mk("cmp", ts(b), ts(a)), 2 - i):
                yield (o[0], s, o[2])


def hash_free(st):
    """nothing the path knows constrains the hashes"""
    cs = list(facts_terms(st))
    return not any(vague(c) for c in cs) and not st.unk and not any(
        x.k == "call" and x.a[0] == "transaction::Transactionable::hash" for c in cs for x in subterms(c))


def split(outs, n_of):
    """fork on the ordering a path returns"""
    for o in outs:
        if o[0] != "ret":
            continue
        v = n_of(o[2])
        if v is None:
            yield o[1], None, o[2]
        elif v.k == "adt":
            yield o[1], v.a[1] - 1, v
        else:
            i = o[1].variant(v)
            for j in (0, 1, 2) if i is None else (i,):
                s = o[1].copy()
                if s.assume_var(v, j):
                    yield s, j - 1, v


@rule("C27")
def c27(cx):
    """every path of the comparisons of pooled transactions: an older transaction is greater (served first), a newer one less;
    with equal timestamps the result is decided by the first difference of the complete hashes, always in the same direction,
    and is Equal only for equal hashes; equality and partial order agree with it on every path"""
    P = cx.P
    I = order_impls(P)
    if "cmp" not in I or "eq" not in I or "partial_cmp" not in I:
        raise Missing("std::cmp::Ord for transactions")
    a, b = sym("self"), sym("other")
    dirs = {}
    for m in ("cmp", "partial_cmp"):
        fn = I[m]
        at = fn_where(P, fn)
        n_of = (lambda v: v) if m == "cmp" else (lambda v: v.a[2][0] if v.k == "adt" and v.a[1] == 1 else None)
        n = set()
        for st, r, v in split(by_time(cx.run(fn, args={0: a, 1: b}, merge=False), a, b), n_of):
            if r is None:
                if v.k == "adt" and v.a[1] == 0:
                    cx.violated("C27|%s|none" % m, at, "two transactions are not ordered", st)
                else:
                    cx.undecided("C27|" + m, at, "result %s" % show(v, 4))
                continue
            n.add(r)
            ordered(cx, "C27|" + m, at, st, r, a, b, dirs)
        cx.check({-1, 0, 1} <= n, "C27|%s|results" % m, at, "%s never answers %s" % (m, sorted({-1, 0, 1} - n)))
    if len(set(dirs.values())) > 1:
        d = sorted(dirs.items(), key=str)
        cx.bad("C27|direction", d[-1][0][2], "equal timestamps are ordered by hash in opposite directions on different paths")
    for m in ("eq", "ne", "lt", "le", "gt", "ge"):
        if m not in I:
            continue
        fn = I[m]
        at = fn_where(P, fn)
        for o in by_time(cx.run(fn, args={0: a, 1: b}, merge=False), a, b):
            if o[0] != "ret":
                continue
            for want in (True, False):
                s = o[1].copy()
                if o[2].k == "bool" and o[2].a[0] is not want or o[2].k != "bool" and not s.assume(o[2], want):
                    continue
                agrees(cx, "C27|" + m, at, s, m, want, a, b, dirs)


def ordered(cx, key, at, st, r, a, b, dirs):
    t, h = relation(st, a, b)
    if t is None:
        if h is not None and h[1] == 0 and r == 0:
            # one transaction compared with itself
            cx.check(False, key + "|timestamp", at, "transactions compare equal without comparing their timestamps", st)
            return
        unknown(cx, key + "|timestamp", at, "an order is decided without comparing the timestamps", st)
        return
    if t:
        cx.check(r == -t, key + "|oldest first", at, "the %s transaction is served first" % ("newer" if r == t else "older"), st)
        return
    if h is None or h[1] is None:
        unknown(cx, key + "|ties", at, "transactions with the same timestamp are ordered %d without comparing their complete hashes" % r, st)
        return
    if h[1] == 0:
        cx.check(r == 0, key + "|equal", at, "transactions with the same timestamp and hash are not equal", st)
        return
    cx.check(r != 0, key + "|different", at, "transactions with different hashes are equal", st)
    if r:
        dirs[(h[0], key, at, h[1])] = (h[0], r * h[1])


def unknown(cx, key, at, text, st):
    """the path knows nothing of the quantity: reported when everything it knows is understood"""
    odd = [c for c in facts_terms(st) if vague(c)]
    hashy = any(x.k == "call" and x.a[0] == "transaction::Transactionable::hash" for c in facts_terms(st) for x in subterms(c))
    partial = any(q[0] == "all" for q in st.alls)
    if odd or st.unk or (hashy and not partial):
        cx.undecided(key, at, text)
    else:
        cx.violated(key, at, text, st)


def agrees(cx, key, at, st, m, val, a, b, dirs):
    """a Boolean comparison agrees with the order the relation of the path determines"""
    t, h = relation(st, a, b)
    r = None
    if t == 0 and h is None and m in ("eq", "ne") and hash_free(st):
        # the answer is the same for equal and for different hashes
        cx.violated(key + "|agrees", at, "%s answers %s for simultaneous transactions whatever their hashes" % (m, val), st)
        return
    if t:
        r = -t
    elif t == 0 and h is not None and h[1] is not None:
        if h[1] == 0:
            r = 0
        else:
            ds = {v[1] for v in dirs.values()}
            r = h[1] * ds.pop() if len(ds) == 1 else None
            if r is None and m in ("eq", "ne"):
                r = 1
    elif m in ("eq", "ne") and h is not None and h[0] == "differ":
        r = 1
    if r is None:
        unknown(cx, key + "|agrees", at, "%s answers %s without establishing how the two transactions are ordered" % (m, val), st)
        return
    want = {"eq": r == 0, "ne": r != 0, "lt": r < 0, "le": r <= 0, "gt": r > 0, "ge": r >= 0}[m]
    cx.check(val is want, key + "|agrees", at, "%s answers %s for transactions ordered %d" % (m, val, r), st)


# ------------------------------------------------------------------ C31
COMPRESS, DECOMPRESS = "tools::compress_to_file", "tools::decompress_from_file"


def inner(v):
    ks = []
    while isinstance(v, V) and v.k in ("zenc", "bufw"):
        ks.append(v.k)
        v = v.a[0]
    return v, ks


@rule("C31")
def c31(cx):
    """every successful path of compressing opened the file truncated, wrote all the data through a compressor and finished
    it (and flushed what buffers the file); every successful path of decompressing returns everything the decoder of the file
    yields"""
    P = cx.P
    fn = cx.need(COMPRESS)
    at = fn_where(P, fn)
    path, data = sym("output_file"), sym("data")
    n = 0
    outs = cx.run(fn, args={0: path, 1: data}, merge=False)
    if any(e[0] == "loop" for o in outs for e in o[1].events()):
        # written piece by piece: lengths around the sizes of the pieces
        for size in piece_sizes(P, fn):
            part = mk("sym", "data_of_%d_bytes" % size)
            ALEN[part] = size
            for o in run_shape(cx, fn, {0: path, 1: part}, prims=STD, panics=False):
                if o[0] == "ret" and is_ok(o):
                    n += 1
                    compressed(cx, at, o, path, part)
        outs = []
    for o in outs:
        if o[0] != "ret" or not is_ok(o):
            continue
        n += 1
        compressed(cx, at, o, path, data)
    cx.check(n > 0, "C31|compress|never", at, "compressing never succeeds")
    fn = cx.need(DECOMPRESS)
    at = fn_where(P, fn)
    n = 0
    name = sym("filename")
    want = mk("unz", mk("filedata", name))
    for o in cx.run(fn, args={0: name}, merge=False):
        if not is_ok(o):
            continue
        n += 1
        st, v = o[1], okval(o)
        part = [e for e in o[1].events() if e[0] == "op" and e[1] == "fs.read.partial"]
        loop = any(e[0] == "loop" for e in o[1].events())
        if part and not loop and not same(st, v, want):
            cx.check(False, "C31|decompress|partial", where(part[0]), "what a single read delivers is returned as the whole content", None)
            continue
        if loop:
            cx.undecided("C31|decompress", at, "read in a loop")
            continue
        cx.check(same(st, v, want), "C31|decompress|content", at, "decompressing returns %s" % show(v, 5), st, (v,))
    cx.check(n > 0, "C31|decompress|never", at, "decompressing never succeeds")


def piece_sizes(P, fn):
    cs = corner_sizes(P, fn, 2, 1 << 26)
    cs = set(cs) | {1 << c for c in cs if c <= 26}
    top = {c for c in cs if c >= 16}
    cs = sorted(top or cs)
    cs = cs[:12] + cs[12:][-12:]
    # a bounded number of pieces of one size ends at the product
    cs += sorted({a * b for a in cs for b in cs if 1 << 6 <= a * b <= 1 << 26} - set(cs))[-24:]
    return sorted({0, 1} | {k * c + d for c in cs for k in (1, 2) for d in (-1, 0, 1)})


def compressed(cx, at, o, path, data):
    st = o[1]
    evs = st.events()
    if any(e[0] == "loop" for e in evs):
        cx.undecided("C31|compress", at, "written in a loop")
        return
    opened = [e for e in evs if e[0] == "op" and e[1] == "fs.open" and same(st, e[2][0], path)]
    if not opened:
        cx.check(False, "C31|compress|file", at, "success is reported without opening the file", st,
                 tuple(e[2][0] for e in ops(o, "fs.open")))
        return
    h = opened[-1][3]
    fl = str(opened[-1][2][1].a)
    cx.check("truncate" in fl or "create_new" in fl, "C31|compress|stale", where(opened[-1]),
             "what the file contained before is kept behind the new content", st)
    parts = []
    last = -1
    bad = False
    zs = set()
    for i, e in enumerate(evs):
        if e[0] == "op" and e[1] == "fs.write" and inner(e[2][0])[0] is h:
            parts.append((i, e[2][0], e[2][1], e))
            last = i
        elif e[0] == "op" and e[1] == "fs.write.partial" and inner(e[2][0])[0] is h:
            n = e[3]
            if not (is_int(n) and same(st, n, length(e[2][1]))):
                cx.check(False, "C31|compress|partial", where(e), "a write that may store only a part of the data is taken for complete", None)
                bad = True
            parts.append((i, e[2][0], e[2][1], e))
            last = i
    if bad:
        return
    for _, w, _, _ in parts:
        x = w
        while x.k in ("zenc", "bufw"):
            if x.k == "zenc":
                zs.add(x)
            x = x.a[0]
    if not parts and st.norm(length(data)) is integer(0):       # an empty content needs no write
        zs = {e[2][0] for e in evs if e[0] == "op" and e[1] == "zstd.finish" and inner(e[2][0])[0] is h}
    segs = []
    for _, w, d, e in parts:
        segs.extend(as_segs(d))
    whole = mk("cat", data)
    total = seq(tuple(segs))
    if zs:
        cx.check(same(st, total, data) or same(st, total, seq((whole,))) or not parts, "C31|compress|data", at,
                 "what is compressed is %s and not the data" % show(total, 4), st, (total,))
        for z in zs:
            fin = [i for i, e in enumerate(evs) if e[0] == "op" and e[1] == "zstd.finish" and e[2][0] is z]
            cx.check(bool(fin) and fin[-1] > last, "C31|compress|finished", at,
                     "success is reported without finishing the compressed stream", None if not fin else st)
            end = max(fin) if fin else last
            buffered(cx, at, st, evs, z.a[0], end)
            for _, w, _, _ in parts:
                if w.k == "bufw" and w is not z:
                    fl_ = [i for i, e in enumerate(evs) if e[0] == "op" and e[1] == "fs.flush" and e[2][0] is w and i > last]
                    cx.check(bool(fl_), "C31|compress|buffered", at, "buffered data may not have been written when success is reported", st)
        return
    if not parts:
        cx.check(False, "C31|compress|data", at, "success is reported without writing anything", st)
        return
    z = mk("zip", data)
    cx.check(same(st, total, z) or same(st, total, seq((mk("cat", z),))), "C31|compress|data", at,
             "the file contains %s and not the compressed data" % show(total, 4), st, (total,))
    for _, w, _, _ in parts:
        buffered(cx, at, st, evs, w, last)


def buffered(cx, at, st, evs, w, end):
    """a buffer between the compressor and the file is flushed at the end"""
    while isinstance(w, V) and w.k in ("zenc", "bufw"):
        if w.k == "bufw":
            fl_ = [i for i, e in enumerate(evs) if e[0] == "op" and e[1] == "fs.flush" and e[2][0] is w and i > end]
            cx.check(bool(fl_), "C31|compress|buffered", at, "buffered data may not have been written when success is reported", st)
        w = w.a[0]


# ------------------------------------------------------------------ C32
COPY = "tools::copy_dir_all"


def p_copytree(eng, st, c):
    M.mio.copies(eng, st, c, "fs.copytree")
    return effect(eng, st, "fs.copytree", (W(eng, st, c.args[0]), W(eng, st, c.args[1])), UNIT, c)


@rule("C32")
def c32(cx):
    """copying a directory: every path that succeeds created the destination and exhausted the entries of the source; every
    pass of the loop copies its entry, file or directory, to the same name below the destination; no pass with a failed
    operation goes on"""
    from .r_store import excused
    P = cx.P
    fn = cx.need(COPY)
    at = fn_where(P, fn)
    src, dst = sym("src"), sym("dst")
    pr = dict(STD)
    pr[COPY] = p_copytree
    n = 0
    for o in cx.run(fn, args={0: src, 1: dst}, prims=pr):
        if o[0] != "ret":
            continue
        st = o[1]
        evs = st.events()
        if not is_ok(o):
            continue
        n += 1
        there = any(c.k in ("fsexists", "isdir") and v is True and same(st, c.a[0], dst) for c, v in st.bools.items())
        made = any(e[1] in ("fs.create_dir_all", "fs.create_dir") and same(st, e[2][0], dst) and
                   (e[0] == "op" or e[0] == "fault" and excused(st, e, evs[i + 1:])) for i, e in enumerate(evs) if e[0] in ("op", "fault"))
        cx.check(there or made, "C32|destination", at, "an empty directory is not created at the destination", st)
        D = mk("dirents", src)
        rd = [e for e in evs if e[0] == "op" and e[1] == "fs.read_dir" and same(st, e[2][0], src)]
        if not rd:
            cx.check(False, "C32|source", at, "success is reported without reading the source directory", st,
                     tuple(e[2][0] for e in ops(o, "fs.read_dir")))
            continue
        ends = [e for e in evs if e[0] == "op" and e[1] == "iter.end" and e[2][0] is rd[-1][3]]
        if not ends:
            left = any(c.k == "hasitem" and v is True and c.a[0] is rd[-1][3] for c, v in st.bools.items())
            if left and not st.unk:
                cx.check(False, "C32|incomplete", at, "success is reported before all entries were copied", None)
            else:
                cx.undecided("C32|incomplete", at, "entries not read one by one")
            continue
        loops = [e for e in evs if e[0] == "loop" and any(x is ends[-1][2][1] for x in e[1])]
        if not loops:
            lost = [x for e in evs if e[0] == "loop" for b in e[2] for x in b if x[0] == "fault" and x[1] == "fs.dirent"
                    and same(st, x[2][0], src)]
            for x in lost:
                cx.check(False, "C32|skipped", where(x), "success is reported although an entry of the source could not be read", None)
            cx.undecided("C32|loop", at, "loop over the entries not found")
            continue
        for bt in loops[-1][2]:
            entry_copied(cx, at, bt, src, dst, st)
        for i, e in enumerate(evs):
            if e[0] == "fault" and e[1].startswith("fs.") and not excused(st, e, evs[i + 1:]):
                cx.check(False, "C32|ignored|" + e[1], where(e), "success is reported although %s failed" % e[1], st)
    cx.check(n > 0, "C32|never", at, "copying never succeeds")


def called(P, p):
    """paths of the functions a body calls"""
    out = set()
    for b in P.bodies[p]["blocks"]:
        t = b["t"]
        if t.get("k") == "call":
            f = t["f"].get("const", {}).get("fn")
            if f:
                out.add(f["path"])
    return out


def entry_copied(cx, at, bt, src, dst, st):
    from .r_store import excused
    ents = [e for e in bt if e[0] == "op" and e[1] == "fs.dirent"]
    for i, e in enumerate(bt):
        if e[0] == "fault" and not excused(st, e, bt[i + 1:]):
            cx.check(False, "C32|ignored|" + e[1], where(e), "copying goes on although %s failed" % e[1])
            return
    cps = [e for e in bt if e[0] == "op" and e[1] in ("fs.copy", "fs.copytree")]
    if not cps:
        other = [e for e in bt if e[0] in ("call",) or e[0] == "op" and e[1] not in ("fs.dirent", "fs.file_type", "fs.metadata", "fs.exists",
                                                                                    "fs.create_dir_all", "fs.create_dir")]
        if other:
            # a subdirectory treated in place: each of its entries must be copied too
            inner = [b for e in bt if e[0] == "loop" for b in e[2] if any(x[0] == "op" and x[1] == "fs.dirent" for x in b)]
            kept = any("::push" in c for p in cx.P.bodies if p.startswith(COPY) for c in called(cx.P, p))
            lost = [b for b in inner if all(x[0] not in ("op", "call", "loop", "fault") or x[0] == "op" and x[1] in
                                            ("fs.dirent", "fs.file_type", "fs.metadata", "fs.exists") for x in b)]
            if lost and not kept:
                e = [x for x in lost[0] if x[0] == "op"][0]
                cx.check(False, "C32|skipped|below", where(e), "an entry of a subdirectory is skipped")
                return
            cx.undecided("C32|skipped", at, "entry treated by %s" % other[0][1])
        else:
            cx.check(False, "C32|skipped", where(ents[0]) if ents else at, "an entry is skipped")
        return
    for e in cps:
        a, b = e[2]
        good = a.k == "path" and a.a[0] is src and b.k == "path" and b.a[0] is dst and a.a[1] is b.a[1] and a.a[1].k == "dename"
        cx.check(good, "C32|place", where(e), "an entry is copied from %s to %s" % (show(a, 4), show(b, 4)), None, (a, b))
