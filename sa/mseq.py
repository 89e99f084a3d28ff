"""Models: iterators, slices, vectors, strings, maps, sets, heaps."""
from .terms import *
from . import terms as T
from .mcore import model, MODELS, ret, panic, W, fork, cases, then, callv, fresh, targ, order, is_opt, default_of
from .mnum import cat_

I = "std::iter::Iterator::"
ZERO, ONE = integer(0), integer(1)


# ------------------------------------------------------------------ views
def base(view, n):
    """an iterator over a view of n elements"""
    return mk("it", view, ZERO, ZERO, n)


def over(eng, st, a, et=None):
    """iterator over a value (shared)"""
    v = W(eng, st, a)
    return base(mk("view", "elems", v, et), st.norm(length(v)))


RANGES = {"std::ops::Range": 2, "std::ops::RangeInclusive": 3, "std::ops::RangeFrom": 1}


def to_it(eng, st, v, c, t=None):
    """IntoIterator::into_iter -> [(st, it)]"""
    et = eng.elem_ty(t) if t is not None else None
    d0 = eng.ty(t) if t is not None else None
    if v.k == "ref" and d0 is not None and d0["k"] == "ref" and d0.get("mut"):
        cur = W(eng, st, v)
        if isit(cur) or (cur.k == "adt" and cur.a[0] in RANGES):
            return [(st, v)]          # &mut iterator is an iterator itself
        pd = eng.ty(eng.peel(t))
        if pd["k"] in ("slice", "array") or pd.get("path") in ("std::vec::Vec",):
            return [(st, base(mk("view", "mut", v, et), st.norm(length(cur))))]
    v = W(eng, st, v)
    if isit(v):
        return [(st, v)]
    if v.k == "adt" and v.a[0] == "std::ops::Range":
        lo, hi = v.a[2]
        out = []
        for s, b in fork(eng, st, le(lo, hi)):
            out.append((s, base(mk("view", "range", lo), sub(hi, lo) if b else ZERO)))
        return out
    if v.k == "adt" and v.a[0] == "std::ops::RangeInclusive":
        lo, hi = v.a[2][0], v.a[2][1]
        out = []
        for s, b in fork(eng, st, le(lo, hi)):
            out.append((s, base(mk("view", "range", lo), add(sub(hi, lo), ONE) if b else ZERO)))
        return out
    if v.k == "call" and v.a[0].endswith("RangeInclusive::new"):
        return to_it(eng, st, adt("std::ops::RangeInclusive", 0, v.a[1], v.a[2]), c, None)
    if v.k == "adt" and v.a[0] == "std::ops::RangeFrom":
        return [(st, base(mk("view", "range", v.a[2][0]), mk("cnt", fresh(st, "inf"))))]
    if d0 is not None and eng.ty(eng.peel(t)).get("path") == OPTION or (v.k == "adt" and v.a[0] == OPTION):
        out = []
        for s, i, p in cases(eng, st, v, t):
            out.append((s, base(mk("view", "elems", mk("arr", (p,)) if i else EMPTY, None), integer(1 if i else 0))))
        return out
    if v.k in ("dirents",):
        return [(st, mk("itext", v, ZERO))]
    p = eng.ty(eng.peel(t)).get("path") if t is not None else None
    if p in ("std::collections::HashMap", "std::collections::BTreeMap"):
        v = mk("mapitems", v)
        return [(st, base(mk("view", "elems", v, None), mk("len", v)))]
    if p in ("std::collections::HashSet", "std::collections::BTreeSet", "std::collections::BinaryHeap"):
        v = mk("setitems", v)
        return [(st, base(mk("view", "elems", v, None), mk("len", v)))]
    if t is not None and et is None and p is not None and p not in ("std::vec::Vec", "std::string::String", "sled::IVec"):
        return [(st, mk("itext", v, ZERO))]
    return [(st, base(mk("view", "elems", v, et), st.norm(length(v))))]


@model("std::option::Option::iter")
def m_optiter(eng, st, c):
    return [("ret", s, it) for s, it in to_it(eng, st, W(eng, st, c.args[0]), c, eng.peel(c.argts[0]) if c.argts[0] is not None else None)]


def isit(v):
    return v.k in ("it", "itext", "itmap", "itfilter", "itfm", "ittw", "itmw", "itsw", "itchain", "itflat", "itenum",
                   "ittake", "itskip", "itzip", "itinsp", "itpeek", "itflatcur", "itscan", "itstepn", "itcyc", "itsucc", "itgen")


def vitem(eng, st, view, i, c):
    """element i of a view -> outcomes"""
    k = view.a[0]
    if k == "elems":
        v, et = view.a[1], view.a[2]
        return ret(st, eng.elem_(st, v, i, et))
    if k == "mut":
        r, et = view.a[1], view.a[2]
        return ret(st, mk("ref", r.a[0], r.a[1] + (("i", i, et),)))
    if k == "range":
        return ret(st, add(view.a[1], i))
    if k == "rev":
        return vitem(eng, st, view.a[1], sub(sub(view.a[2], ONE), i), c)
    if k == "enum":
        return then(vitem(eng, st, view.a[1], i, c), lambda s, v: ret(s, mk("tup", sub(i, view.a[2]), v)))
    if k == "sub":
        return vitem(eng, st, view.a[1], add(view.a[2], i), c)
    if k == "step":
        return vitem(eng, st, view.a[1], add(view.a[2], mul(i, view.a[3])), c)
    if k == "zip":
        return then(vitem(eng, st, view.a[1], i, c),
                    lambda s, x: then(vitem(eng, s, view.a[2], i, c), lambda s2, y: ret(s2, mk("tup", x, y))))
    if k == "map":
        return then(vitem(eng, st, view.a[1], i, c), lambda s, x: callv(eng, s, view.a[2], [x], c, ("map", view.a[2].id)))
    if k == "chunks":
        v, n, L = view.a[1], view.a[2], view.a[3]
        off = mul(i, n)
        out = []
        for s, full in fork(eng, st, le(add(off, n), L)):
            out.append(("ret", s, slice_(v, off, n if full else sub(L, off))))
        return out
    if k == "chunksx":
        return ret(st, slice_(view.a[1], mul(i, view.a[2]), view.a[2]))
    if k == "windows":
        return ret(st, slice_(view.a[1], i, view.a[2]))
    if k == "mchunks":
        r, n = view.a[1], view.a[2]
        return ret(st, mk("ref", r.a[0], r.a[1] + (("s", mul(i, n), n),)))
    if k == "rept":
        return ret(st, view.a[1])
    return ret(st, mk("elem", view, i))


def next_(eng, st, it, c, back=False):
    """-> [('item', st, it', v) | ('end', st, it') | ('panic', st, info)]"""
    k = it.k
    out = []
    if k == "ref":
        cur = W(eng, st, it)
        if cur.k == "adt" and cur.a[0] in RANGES:
            for o in range_next(eng, st, cur, c, back):
                if o[0] in ("item", "end"):
                    eng.write_cell(o[1], it.a[0], it.a[1], o[2])
                    out.append((o[0], o[1], it) + o[3:])
            return out
        for o in next_(eng, st, cur, c, back):
            if o[0] in ("item", "end"):
                eng.write_cell(o[1], it.a[0], it.a[1], o[2])
                out.append((o[0], o[1], it) + o[3:])
            else:
                out.append(o)
        return out
    if k == "adt" and it.a[0] in RANGES:
        return range_next(eng, st, it, c, back)
    if k == "it":
        view, f, b, n = it.a
        for s, more in fork(eng, st, lt(add(f, b), n)):
            if not more:
                out.append(("end", s, it))
                continue
            idx = sub(sub(n, ONE), b) if back else f
            it2 = mk("it", view, f, add(b, ONE), n) if back else mk("it", view, add(f, ONE), b, n)
            for o in vitem(eng, s, view, idx, c):
                out.append(("item", o[1], it2, o[2]) if o[0] == "ret" else o)
        return out
    if k == "itext":
        return ext_next(eng, st, it, c)
    if k == "itsucc" and not back:
        for s, i, p in cases(eng, st, it.a[0]):
            if not i:
                out.append(("end", s, mk(k, NONE, it.a[1])))
                continue
            for q in callv(eng, s, it.a[1], [p], c, ("succ", it.a[1].id)):
                out.append(("item", q[1], mk(k, q[2], it.a[1]), p) if q[0] == "ret" else q)
        return out
    if k == "itgen" and not back:
        for q in callv(eng, st, it.a[0], [], c, ("gen", it.a[0].id)):
            if q[0] != "ret":
                out.append(q)
            elif it.a[1]:
                out.append(("item", q[1], it, q[2]))
            else:
                for s, i, p in cases(eng, q[1], q[2]):
                    out.append(("item", s, it, p) if i else ("end", s, it))
        return out
    if k in ("itmap", "itinsp"):
        for o in next_(eng, st, it.a[0], c, back):
            if o[0] == "item":
                x = o[3]
                for q in callv(eng, o[1], it.a[1], [x], c, ("m", it.a[1].id)):
                    if q[0] == "ret":
                        out.append(("item", q[1], mk(k, o[2], it.a[1]), q[2] if k == "itmap" else x))
                    else:
                        out.append(q)
            elif o[0] == "end":
                out.append(("end", o[1], mk(k, o[2], it.a[1])))
            else:
                out.append(o)
        return out
    if k == "itenum":
        for o in next_(eng, st, it.a[0], c):
            if o[0] == "item":
                out.append(("item", o[1], mk("itenum", o[2], add(it.a[1], ONE)), mk("tup", it.a[1], o[3])))
            elif o[0] == "end":
                out.append(("end", o[1], mk("itenum", o[2], it.a[1])))
            else:
                out.append(o)
        return out
    if k == "ittake":
        for s, more in fork(eng, st, lt(ZERO, it.a[1])):
            if not more:
                out.append(("end", s, it))
                continue
            for o in next_(eng, s, it.a[0], c):
                if o[0] in ("item", "end"):
                    out.append((o[0], o[1], mk("ittake", o[2], sub(it.a[1], ONE))) + o[3:])
                else:
                    out.append(o)
        return out
    if k == "itzip":
        for o in next_(eng, st, it.a[0], c):
            if o[0] != "item":
                out.append(("end", o[1], it) if o[0] == "end" else o)
                continue
            for q in next_(eng, o[1], it.a[1], c):
                if q[0] == "item":
                    out.append(("item", q[1], mk("itzip", o[2], q[2]), mk("tup", o[3], q[3])))
                elif q[0] == "end":
                    out.append(("end", q[1], it))
                else:
                    out.append(q)
        return out
    if k == "itchain":
        a, b = it.a
        if a is not UNIT:
            for o in next_(eng, st, a, c):
                if o[0] == "item":
                    out.append(("item", o[1], mk("itchain", o[2], b), o[3]))
                elif o[0] == "end":
                    for q in next_(eng, o[1], b, c):
                        if q[0] in ("item", "end"):
                            out.append((q[0], q[1], mk("itchain", UNIT, q[2])) + q[3:])
                        else:
                            out.append(q)
                else:
                    out.append(o)
            return out
        for q in next_(eng, st, b, c):
            if q[0] in ("item", "end"):
                out.append((q[0], q[1], mk("itchain", UNIT, q[2])) + q[3:])
            else:
                out.append(q)
        return out
    if k in ("ittw", "itmw"):
        for o in next_(eng, st, it.a[0], c):
            if o[0] != "item":
                out.append(o if o[0] == "panic" else ("end", o[1], mk(k, o[2], it.a[1])))
                continue
            for q in callv(eng, o[1], it.a[1], [o[3]], c, ("tw", it.a[1].id)):
                if q[0] != "ret":
                    out.append(q)
                elif k == "ittw":
                    for s, b in fork(eng, q[1], q[2]):
                        out.append(("item", s, mk(k, o[2], it.a[1]), o[3]) if b else ("end", s, base(mk("view", "elems", EMPTY, None), ZERO)))
                else:
                    for s, i, p in cases(eng, q[1], q[2]):
                        out.append(("item", s, mk(k, o[2], it.a[1]), p) if i else ("end", s, base(mk("view", "elems", EMPTY, None), ZERO)))
        return out
    if k in ("itfilter", "itfm", "itsw"):
        ck = ("flt", c.key, it.a[1].id)
        st.cells[ck] = it.a[0]

        def step(s):
            res = []
            for o in next_(eng, s, s.cells[ck], c):
                if o[0] == "panic":
                    res.append(o)
                    continue
                o[1].cells[ck] = o[2]
                if o[0] == "end":
                    res.append(("exit", o[1], "end"))
                    continue
                for q in callv(eng, o[1], it.a[1], [o[3]], c, ("f", it.a[1].id)):
                    if q[0] != "ret":
                        res.append(q)
                    elif k == "itfm":
                        for s2, i, p in cases(eng, q[1], q[2]):
                            res.append(("exit", s2, p) if i else ("back", s2, None))
                    else:
                        for s2, b in fork(eng, q[1], q[2]):
                            if k == "itsw":
                                b = not b
                            res.append(("exit", s2, o[3]) if b else ("back", s2, None))
            return res
        for o in eng.loop((("py", ck), c.path), st, step, c.frame):
            if o[0] == "exit":
                inner = o[1].cells.pop(ck, None) or UNIT
                it2 = mk(k, inner, it.a[1]) if k != "itsw" else inner
                if isinstance(o[2], str):
                    out.append(("end", o[1], it2))
                else:
                    out.append(("item", o[1], it2, o[2]))
            else:
                out.append(o)
        return out
    if k == "itpeek":
        inner, slot = it.a
        for s, i, p in ([(st, 2, None)] if slot is UNIT else cases(eng, st, slot)):
            if i == 1:
                out.append(("item", s, mk("itpeek", inner, UNIT), p))
            elif i == 0:
                out.append(("end", s, it))
            else:
                for o in next_(eng, s, inner, c):
                    if o[0] in ("item", "end"):
                        out.append((o[0], o[1], mk("itpeek", o[2], UNIT)) + o[3:])
                    else:
                        out.append(o)
        return out
    if k == "itflat":
        got = flat_next(eng, st, it, c)
        if got is not None:
            return got
        # flat_map/flatten: unknown number of elements
        st.taint("flat_map")
        s1 = st.copy()
        v = fresh(st, "item", it)
        return [("item", st, it, v), ("end", s1, it)]
    st.taint("iterator:" + k)
    s1 = st.copy()
    return [("item", st, it, fresh(st, "item", it)), ("end", s1, it)]


def flat_next(eng, st, it, c):
    """flatten over options or results: the present values, in order"""
    f = it.a[1]
    ck = ("flt", c.key, f.id, "flat")
    ctr = st.ctr
    s0 = st.copy()
    s0.cells[ck] = it.a[0]
    shape = []

    def step(s):
        res = []
        for o in next_(eng, s, s.cells[ck], c):
            if o[0] == "panic":
                res.append(o)
                continue
            o[1].cells[ck] = o[2]
            if o[0] == "end":
                res.append(("exit", o[1], "end"))
                continue
            for q in ([("ret", o[1], o[3])] if f is UNIT else callv(eng, o[1], f, [o[3]], c, ("f", f.id))):
                if q[0] != "ret":
                    res.append(q)
                    continue
                v = q[2]
                if v.k != "adt" or v.a[0] not in ("std::option::Option", "std::result::Result"):
                    shape.append(v)
                    res.append(("exit", q[1], v))
                    continue
                there = (v.a[1] == 1) == v.a[0].endswith("Option")
                res.append(("exit", q[1], v.a[2][0]) if there else ("back", q[1], None))
        return res
    outs = eng.loop((("py", ck), c.path), s0, step, c.frame)
    if shape:
        return None
    out = []
    for o in outs:
        if o[0] == "exit":
            it2 = mk("itflat", o[1].cells.pop(ck, None) or UNIT, f)
            out.append(("end", o[1], it2) if isinstance(o[2], str) else ("item", o[1], it2, o[2]))
        else:
            out.append(o)
    return out


def range_next(eng, st, r, c, back=False):
    out = []
    p = r.a[0]
    if p == "std::ops::Range":
        lo, hi = r.a[2]
        for s, more in fork(eng, st, lt(lo, hi)):
            if more:
                if back:
                    out.append(("item", s, adt(p, 0, lo, sub(hi, ONE)), sub(hi, ONE)))
                else:
                    out.append(("item", s, adt(p, 0, add(lo, ONE), hi), lo))
            else:
                out.append(("end", s, r))
        return out
    if p == "std::ops::RangeFrom":
        lo = r.a[2][0]
        return [("item", st, adt(p, 0, add(lo, ONE)), lo)]
    for s, it in to_it(eng, st, r, c):
        out.extend(next_(eng, s, it, c, back))
    return out


def ext_next(eng, st, it, c):
    """an external source of unknown length"""
    src, n = it.a
    out = []
    more = mk("hasitem", src, n)
    for s, b in fork(eng, st, more):
        if not b:
            s.ev("op", "iter.end", (src, n), UNIT, c.site)
            out.append(("end", s, it))
            continue
        it2 = mk("itext", src, add(n, ONE))
        if src.k == "dbiter":
            db = src.a[0]
            if eng.fork_faults:
                s1 = s.copy()
                e = mk("ioerr", "db.iter", n)
                s1.ev("fault", "db.iter", (db, n), e, c.site)
                out.append(("item", s1, it2, err(e)))
            item = mk("tup", mk("dbikey", src, n), mk("dbival", src, n))
            s.ev("op", "db.iter", (db, n), item, c.site)
            if src.a[1] is integer(1):
                item = item.a[0]
            elif src.a[1] is integer(2):
                item = item.a[1]
            out.append(("item", s, it2, ok(item)))
        elif src.k == "dirents":
            if eng.fork_faults:
                s1 = s.copy()
                e = mk("ioerr", "fs.dirent", n)
                s1.ev("fault", "fs.dirent", (src.a[0], n), e, c.site)
                out.append(("item", s1, it2, err(e)))
            item = mk("dirent", src, n)
            s.ev("op", "fs.dirent", (src.a[0], n), item, c.site)
            out.append(("item", s, it2, ok(item)))
        else:
            eng.notes.add("iter:" + str(src)[:60])
            out.append(("item", s, it2, mk("item", src, n)))
    return out


@model(I + "next", "std::iter::DoubleEndedIterator::next_back")
def m_next(eng, st, c):
    a = c.args[0]
    out = []
    for o in next_(eng, st, a if a.k == "ref" else W(eng, st, a), c, c.path.endswith("back")):
        if o[0] == "item":
            out.append(("ret", o[1], some(o[3])))
        elif o[0] == "end":
            out.append(("ret", o[1], NONE))
        else:
            out.append(o)
    return out


@model("std::iter::IntoIterator::into_iter")
def m_into_iter(eng, st, c):
    t = c.argts[0]
    d = eng.ty(t) if t is not None else None
    v = c.args[0]
    # ranges stay as they are: `next` works on them directly
    w = W(eng, st, v) if v.k != "ref" else v
    if w.k == "adt" and w.a[0] in ("std::ops::Range", "std::ops::RangeFrom"):
        return ret(st, w)
    return [("ret", s, it) for s, it in to_it(eng, st, v, c, t)]


@model("core::slice::iter", "std::vec::Vec::iter", "std::slice::iter")
def m_iter(eng, st, c):
    return ret(st, over(eng, st, c.args[0], eng.elem_ty(c.argts[0]) if c.argts[0] is not None else None))


@model("core::slice::iter_mut", "std::vec::Vec::iter_mut")
def m_itermut(eng, st, c):
    a = c.args[0]
    if a.k != "ref":
        st.taint("iter_mut")
        return ret(st, over(eng, st, a))
    return ret(st, base(mk("view", "mut", a, eng.elem_ty(c.argts[0])), st.norm(length(W(eng, st, a)))))


def getit(eng, st, v, c, t=None):
    w = W(eng, st, v) if v.k != "ref" else v
    if w.k == "ref":
        cur = W(eng, st, w)
        if isit(cur) or (cur.k == "adt" and cur.a[0] in RANGES):
            return [(st, w)]
    if w.k != "ref" and isit(w):
        return [(st, w)]
    return to_it(eng, st, v, c, t)


def adaptor(name):
    def d(f):
        def g(eng, st, c):
            out = []
            for s, it in getit(eng, st, c.args[0], c, c.argts[0] if c.argts else None):
                if it.k == "adt":
                    for s2, it2 in to_it(eng, s, it, c):
                        out.extend(f(eng, s2, c, it2))
                else:
                    out.extend(f(eng, s, c, it))
            return out
        for n in (name if isinstance(name, tuple) else (name,)):
            MODELS[I + n] = g
        return f
    return d


@adaptor(("cloned", "copied", "fuse", "into_iter"))
def a_same(eng, st, c, it):
    return ret(st, it)


@adaptor("rev")
def a_rev(eng, st, c, it):
    if it.k == "it":
        view, f, b, n = it.a
        return ret(st, mk("it", mk("view", "rev", view, n), b, f, n))
    if it.k == "itmap":
        return then(a_rev(eng, st, c, it.a[0]), lambda s, x: ret(s, mk("itmap", x, it.a[1])))
    st.taint("rev")
    return ret(st, mk("itext", it, ZERO))


@adaptor("enumerate")
def a_enum(eng, st, c, it):
    if it.k == "it":
        view, f, b, n = it.a
        return ret(st, mk("it", mk("view", "enum", view, f), f, b, n))
    return ret(st, mk("itenum", it, ZERO))


@adaptor("map")
def a_map(eng, st, c, it):
    return ret(st, mk("itmap", it, c.args[1]))


@adaptor("inspect")
def a_insp(eng, st, c, it):
    return ret(st, mk("itinsp", it, c.args[1]))


@adaptor("filter")
def a_filter(eng, st, c, it):
    return ret(st, mk("itfilter", it, c.args[1]))


@adaptor("filter_map")
def a_fm(eng, st, c, it):
    return ret(st, mk("itfm", it, c.args[1]))


@adaptor("take_while")
def a_tw(eng, st, c, it):
    return ret(st, mk("ittw", it, c.args[1]))


@adaptor("map_while")
def a_mw(eng, st, c, it):
    return ret(st, mk("itmw", it, c.args[1]))


@adaptor("skip_while")
def a_sw(eng, st, c, it):
    return ret(st, mk("itsw", it, c.args[1]))


@adaptor(("flat_map", "flatten"))
def a_flat(eng, st, c, it):
    return ret(st, mk("itflat", it, c.args[1] if len(c.args) > 1 else UNIT))


@adaptor("peekable")
def a_peek(eng, st, c, it):
    return ret(st, mk("itpeek", it, UNIT))


@model("std::iter::Peekable::peek")
def m_peek(eng, st, c):
    a = c.args[0]
    it = W(eng, st, a)
    if it.k != "itpeek":
        st.taint("peek")
        return ret(st, fresh(st, "item", it))
    if it.a[1] is not UNIT:
        return ret(st, it.a[1])
    out = []
    for o in next_(eng, st, it.a[0], c):
        if o[0] == "panic":
            out.append(o)
            continue
        v = some(o[3]) if o[0] == "item" else NONE
        eng.write_cell(o[1], a.a[0], a.a[1], mk("itpeek", o[2], v))
        out.append(("ret", o[1], v))
    return out


@adaptor("skip")
def a_skip(eng, st, c, it):
    n = c.args[1]
    if it.k == "it":
        view, f, b, L = it.a
        out = []
        for s, enough in fork(eng, st, le(add(add(f, b), n), L)):
            out.append(("ret", s, mk("it", view, add(f, n) if enough else sub(L, b), b, L)))
        return out
    if it.k == "itmap":
        return then(a_skip(eng, st, c, it.a[0]), lambda s, x: ret(s, mk("itmap", x, it.a[1])))
    if n.k == "int" and n.a[0] <= 4:
        # passing over a few items at once is what the first `next` would do
        out, done = [(st, it)], []
        for _ in range(n.a[0]):
            cur, out = out, []
            for s, i in cur:
                for o in next_(eng, s, i, c):
                    if o[0] == "item":
                        out.append((o[1], o[2]))
                    elif o[0] == "end":
                        done += ret(o[1], o[2])
                    else:
                        done.append(o)
        return done + [("ret", s, i) for s, i in out]
    st.taint("skip")
    return ret(st, it)


@adaptor("take")
def a_take(eng, st, c, it):
    n = c.args[1]
    if it.k == "it":
        view, f, b, L = it.a
        out = []
        for s, enough in fork(eng, st, le(add(add(f, b), n), L)):
            out.append(("ret", s, mk("it", view, f, sub(sub(L, f), n) if enough else b, L)))
        return out
    return ret(st, mk("ittake", it, n))


@adaptor("step_by")
def a_step(eng, st, c, it):
    n = c.args[1]
    if it.k == "it":
        view, f, b, L = it.a
        avail = sub(sub(L, f), b)
        cnt = div(add(avail, sub(n, ONE)), n)
        return ret(st, mk("it", mk("view", "step", view, f, n), ZERO, ZERO, cnt))
    if it.k == "itmap":
        return then(a_step(eng, st, c, it.a[0]), lambda s, x: ret(s, mk("itmap", x, it.a[1])))
    st.taint("step_by")
    return ret(st, mk("itext", it, ZERO))


@adaptor("zip")
def a_zip(eng, st, c, it):
    out = []
    for s, jt in getit(eng, st, c.args[1], c, c.argts[1]):
        if jt.k == "adt":
            r = to_it(eng, s, jt, c)
            s, jt = r[0]
        if it.k == "it" and jt.k == "it":
            n1 = sub(sub(it.a[3], it.a[1]), it.a[2])
            n2 = sub(sub(jt.a[3], jt.a[1]), jt.a[2])
            for s2, b in fork(eng, s, le(n1, n2)):
                va = it.a[0] if it.a[1] is ZERO else mk("view", "sub", it.a[0], it.a[1])
                vb = jt.a[0] if jt.a[1] is ZERO else mk("view", "sub", jt.a[0], jt.a[1])
                out.append(("ret", s2, base(mk("view", "zip", va, vb), n1 if b else n2)))
        else:
            out.append(("ret", s, mk("itzip", it, jt)))
    return out


@adaptor("chain")
def a_chain(eng, st, c, it):
    return [("ret", s, mk("itchain", it, jt)) for s, jt in getit(eng, st, c.args[1], c, c.argts[1])]


MODELS["std::iter::zip"] = MODELS[I + "zip"]
MODELS["std::iter::once"] = lambda eng, st, c: ret(st, base(mk("view", "elems", mk("arr", (c.args[0],)), None), ONE))
MODELS["std::iter::empty"] = lambda eng, st, c: ret(st, base(mk("view", "elems", EMPTY, None), ZERO))
MODELS["std::iter::repeat"] = lambda eng, st, c: ret(st, base(mk("view", "rept", c.args[0]), mk("cnt", fresh(st, "inf"))))
MODELS["std::iter::successors"] = lambda eng, st, c: ret(st, mk("itsucc", c.args[0], c.args[1]))
MODELS["std::iter::from_fn"] = lambda eng, st, c: ret(st, mk("itgen", c.args[0], False))
MODELS["std::iter::repeat_with"] = lambda eng, st, c: ret(st, mk("itgen", c.args[0], True))
MODELS["std::iter::repeat_n"] = lambda eng, st, c: ret(st, base(mk("view", "rept", c.args[0]), c.args[1]))


# ------------------------------------------------------------------ consumers
def consume(eng, st, c, it, body, init=(), tag=""):
    """body(s, item) -> [('back', s, None) | ('exit', s, payload) | panic]; exits carry 'end' at exhaustion"""
    ck = ("cons", c.key, tag)
    st.cells[ck] = it
    for key, v in init:
        st.cells[key] = v

    def step(s):
        res = []
        for o in next_(eng, s, s.cells[ck], c):
            if o[0] == "panic":
                res.append(o)
                continue
            o[1].cells[ck] = o[2]
            if o[0] == "end":
                res.append(("exit", o[1], "end"))
            else:
                res.extend(body(o[1], o[3]))
        return res
    outs = eng.loop((("py", ck), c.path), st, step, c.frame)
    for o in outs:
        o[1].cells.pop(ck, None)
    return outs


def backs(outs):
    return [("back", o[1], None) if o[0] == "ret" else o for o in outs]


def finish(outs, f):
    """f(st, payload) -> outs for exits"""
    r = []
    for o in outs:
        if o[0] == "exit":
            r.extend(f(o[1], o[2]))
        else:
            r.append(o)
    return r


def with_it(f):
    def g(eng, st, c):
        out = []
        for s, it in getit(eng, st, c.args[0], c, c.argts[0] if c.argts else None):
            if it.k == "adt":
                for s2, it2 in to_it(eng, s, it, c):
                    out.extend(f(eng, s2, c, it2))
            else:
                out.extend(f(eng, s, c, it))
        return out
    return g


def quant(want):
    def f(eng, st, c, it):
        def body(s, x):
            r = []
            for o in callv(eng, s, c.args[1], [x], c):
                if o[0] != "ret":
                    r.append(o)
                    continue
                for s2, b in fork(eng, o[1], o[2]):
                    r.append(("exit", s2, boolv(want)) if b == want else ("back", s2, None))
            return r
        return finish(consume(eng, st, c, it, body),
                      lambda s, p: ret(s, boolv(not want) if isinstance(p, str) else p))
    return with_it(f)


MODELS[I + "any"] = quant(True)
MODELS[I + "all"] = quant(False)


def finder(kind):
    def f(eng, st, c, it):
        pk = ("pos", c.key)
        init = [(pk, ZERO)] if kind == "position" else []

        def body(s, x):
            r = []
            for o in callv(eng, s, c.args[1], [x], c):
                if o[0] != "ret":
                    r.append(o)
                elif kind == "find_map":
                    for s2, i, p in cases(eng, o[1], o[2]):
                        r.append(("exit", s2, p) if i else ("back", s2, None))
                else:
                    for s2, b in fork(eng, o[1], o[2]):
                        if b:
                            r.append(("exit", s2, s2.cells[pk] if kind == "position" else x))
                        else:
                            if kind == "position":
                                s2.cells[pk] = add(s2.cells[pk], ONE)
                            r.append(("back", s2, None))
            return r

        def fin(s, p):
            s.cells.pop(pk, None)
            return ret(s, NONE if isinstance(p, str) else some(p))
        return finish(consume(eng, st, c, it, body, init), fin)
    return with_it(f)


MODELS[I + "find"] = finder("find")
MODELS[I + "position"] = finder("position")
MODELS[I + "find_map"] = finder("find_map")


@model(I + "for_each")
@with_it
def m_foreach(eng, st, c, it):
    return finish(consume(eng, st, c, it, lambda s, x: backs(callv(eng, s, c.args[1], [x], c))),
                  lambda s, p: ret(s, UNIT))


@model(I + "try_for_each")
@with_it
def m_tryforeach(eng, st, c, it):
    opt = is_opt(eng, c.dt)

    def body(s, x):
        r = []
        for o in callv(eng, s, c.args[1], [x], c):
            if o[0] != "ret":
                r.append(o)
                continue
            for s2, i, p in cases(eng, o[1], o[2], c.dt):
                good = (i == 1) if opt else (i == 0)
                r.append(("back", s2, None) if good else ("exit", s2, NONE if opt else err(p)))
        return r
    return finish(consume(eng, st, c, it, body),
                  lambda s, p: ret(s, (some(UNIT) if opt else ok(UNIT)) if isinstance(p, str) else p))


@model(I + "fold")
@with_it
def m_fold(eng, st, c, it):
    ak = ("acc", c.key)

    def body(s, x):
        r = []
        for o in callv(eng, s, c.args[2], [s.cells[ak], x], c):
            if o[0] == "ret":
                o[1].cells[ak] = o[2]
                r.append(("back", o[1], None))
            else:
                r.append(o)
        return r

    def fin(s, p):
        return ret(s, s.cells.pop(ak))
    return finish(consume(eng, st, c, it, body, [(ak, c.args[1])]), fin)


@model(I + "try_fold")
@with_it
def m_tryfold(eng, st, c, it):
    ak = ("acc", c.key)
    opt = is_opt(eng, c.dt)

    def body(s, x):
        r = []
        for o in callv(eng, s, c.args[2], [s.cells[ak], x], c):
            if o[0] != "ret":
                r.append(o)
                continue
            for s2, i, p in cases(eng, o[1], o[2], c.dt):
                if (i == 1) if opt else (i == 0):
                    s2.cells[ak] = p
                    r.append(("back", s2, None))
                else:
                    r.append(("exit", s2, NONE if opt else err(p)))
        return r

    def fin(s, p):
        a = s.cells.pop(ak)
        return ret(s, (some(a) if opt else ok(a)) if isinstance(p, str) else p)
    return finish(consume(eng, st, c, it, body, [(ak, c.args[1])]), fin)


def item_ok(eng, t):
    return t


def summing(op, unit):
    def f(eng, st, c, it):
        ak = ("acc", c.key)
        rg = eng.int_type(c.dt)

        def body(s, x):
            v = W(eng, s, x)
            n = add(s.cells[ak], v) if op == "sum" else mul(s.cells[ak], v)
            s.cells[ak] = n
            r = [("back", s, None)]
            if rg is not None:
                r = []
                for s2, b in fork(eng, s, conj(nn(sub(n, integer(rg[0]))), nn(sub(integer(rg[1]), n)))):
                    r.append(("back", s2, None) if b else panic(s2, "overflow:" + op, c)[0])
            return r
        return finish(consume(eng, st, c, it, body, [(ak, integer(unit))]), lambda s, p: ret(s, s.cells.pop(ak)))
    return with_it(f)


MODELS[I + "sum"] = summing("sum", 0)
MODELS[I + "product"] = summing("product", 1)


@model(I + "count", "std::iter::ExactSizeIterator::len")
@with_it
def m_count(eng, st, c, it):
    if it.k == "it":
        return ret(st, sub(sub(it.a[3], it.a[1]), it.a[2]))
    ak = ("acc", c.key)

    def body(s, x):
        s.cells[ak] = add(s.cells[ak], ONE)
        return [("back", s, None)]
    return finish(consume(eng, st, c, it, body, [(ak, ZERO)]), lambda s, p: ret(s, s.cells.pop(ak)))


@model(I + "last")
@with_it
def m_last(eng, st, c, it):
    if it.k == "it":
        out = []
        for o in next_(eng, st, it, c, True):
            out.append(("ret", o[1], some(o[3])) if o[0] == "item" else ("ret", o[1], NONE) if o[0] == "end" else o)
        return out
    st.taint("last")
    return ret(st, fresh(st, "item", it))


@model(I + "nth")
def m_nth(eng, st, c):
    a = c.args[0]
    it = W(eng, st, a)
    n = c.args[1]
    if it.k == "adt":
        r = to_it(eng, st, it, c)
        st, it = r[0]
    if it.k == "it":
        view, f, b, L = it.a
        out = []
        for s, more in fork(eng, st, lt(add(add(f, b), n), L)):
            if a.k == "ref":
                eng.write_cell(s, a.a[0], a.a[1], mk("it", view, add(add(f, n), ONE) if more else sub(L, b), b, L))
            if more:
                out.extend(then(vitem(eng, s, view, add(f, n), c), lambda s2, v: ret(s2, some(v))))
            else:
                out.append(("ret", s, NONE))
        return out
    st.taint("nth")
    return ret(st, fresh(st, "item", it))


for _n in ("max", "min", "max_by_key", "min_by_key", "max_by", "min_by"):
    def _mx(eng, st, c, it, _n=_n):
        r = mk("call", "iter." + _n, it)
        return [("ret", s, some(p) if i else NONE) for s, i, p in cases(eng, st, r, c.dt)]
    MODELS[I + _n] = with_it(_mx)


@model(I + "eq")
@with_it
def m_iteq(eng, st, c, it):
    out = []
    for s, jt in getit(eng, st, c.args[1], c, c.argts[1]):
        out.append(("ret", s, eq(whole_it(it) or it, whole_it(jt) or jt)))
    return out


def whole_it(it):
    if it.k == "it" and it.a[0].a[0] == "elems":
        view, f, b, L = it.a
        return slice_(view.a[1], f, sub(sub(L, f), b))
    if it.k == "it" and it.a[0].a[0] == "rev" and it.a[0].a[1].a[0] == "elems":
        view, f, b, L = it.a
        inner = view.a[1]
        return reverse_(slice_(inner.a[1], b, sub(sub(L, f), b)))
    return None


def wholes(eng, st, it, c, depth=0):
    """[(st, everything the iterator yields, as one sequence)], or None when it is not one"""
    w = whole_it(it)
    if w is not None:
        return [(st, w)]
    if depth > 12:
        return None
    if it.k == "itchain":
        out = []
        a = wholes(eng, st, it.a[0], c, depth + 1)
        for s, x in a or ():
            b = wholes(eng, s, it.a[1], c, depth + 1)
            if b is None:
                return None
            out += [(s2, cat_(x, y)) for s2, y in b]
        return out if a else None
    if it.k == "itflat":
        b = it.a[0]
        if b.k == "itmap" and b.a[0].k == "it":
            b = b.a[0]
        if b.k != "it" or b.a[3].k != "int" or b.a[3].a[0] > 8:
            return None
        out, cur = [], [(st, it.a[0], EMPTY)]
        while cur:
            s, i, acc = cur.pop()
            for o in next_(eng, s, i, c):
                if o[0] == "end":
                    out.append((o[1], acc))
                    continue
                if o[0] != "item":
                    return None
                for q in ([("ret", o[1], o[3])] if it.a[1] is UNIT else
                          callv(eng, o[1], it.a[1], [o[3]], c, ("f", it.a[1].id, depth))):
                    if q[0] != "ret":
                        return None
                    v = W(eng, q[1], q[2])
                    if v.k == "adt" and v.a[0] not in (OPTION, RESULT) or v.k in ("unk", "call"):
                        return None
                    if v.k == "adt" and v.a[0] == RESULT:
                        v = some(v.a[2][0]) if v.a[1] == 0 else NONE
                    for s2, jt in getit(eng, q[1], v, c, None):
                        got = wholes(eng, s2, jt, c, depth + 1)
                        if got is None:
                            return None
                        cur += [(s3, o[2], cat_(acc, y)) for s3, y in got]
        return out
    return None


# ------------------------------------------------------------------ collecting
def is_path(eng, t, *ps):
    if t is None:
        return False
    d = eng.ty(eng.peel(t))
    return d["k"] == "adt" and d["path"] in ps


def collect_into(eng, st, c, it, kind, init, fallible=False):
    """push every element into an accumulator; outcomes carry the accumulator"""
    w = whole_it(it)
    if kind == "seq" and w is not None and not fallible:
        return ret(st, cat_(init, w))
    if kind in ("set", "heap") and w is not None and not fallible and init.k in ("emptyset", "emptyheap"):
        return ret(st, mk("setof", kind, w))
    if kind == "seq" and not fallible and it.k in ("itchain", "itflat"):
        got = wholes(eng, st.copy(), it, c)
        if got is not None:
            return [("ret", s, cat_(init, v)) for s, v in got]
    ak = ("acc", c.key)

    def body(s, x):
        if fallible:
            r = []
            for s2, i, p in cases(eng, s, x):
                good = i == (1 if fallible == "opt" else 0)
                if good:
                    s2.cells[ak] = put(eng, s2, kind, s2.cells[ak], p)
                    r.append(("back", s2, None))
                else:
                    r.append(("exit", s2, NONE if fallible == "opt" else err(p)))
            return r
        s.cells[ak] = put(eng, s, kind, s.cells[ak], x)
        return [("back", s, None)]

    def fin(s, p):
        a = s.cells.pop(ak)
        if fallible:
            return ret(s, (some(a) if fallible == "opt" else ok(a)) if isinstance(p, str) else p)
        return ret(s, a)
    return finish(consume(eng, st, c, it, body, [(ak, init)]), fin)


def put(eng, s, kind, acc, x):
    if kind == "seq":
        return seq(tuple(as_segs(acc)) + (mk("b", W(eng, s, x) if x.k == "guard" else x),))
    if kind == "map" and x.k == "tup":
        return mk("mapins", acc, x.a[0], x.a[1])
    if kind == "set":
        return mk("setins", acc, x)
    if kind == "heap":
        return mk("heappush", acc, x)
    return mk("put", kind, acc, x)


def coll_kind(eng, t):
    d = eng.ty(t)
    if d["k"] != "adt":
        return None
    p = d["path"]
    if p in ("std::vec::Vec", "std::boxed::Box", "sled::IVec", "std::collections::VecDeque"):
        return "seq", EMPTY
    if p in ("std::collections::HashMap", "std::collections::BTreeMap"):
        return "map", mk("emptymap")
    if p in ("std::collections::HashSet", "std::collections::BTreeSet"):
        return "set", mk("emptyset")
    if p == "std::collections::BinaryHeap":
        return "heap", mk("emptyheap")
    if p == "std::string::String":
        return "str", mk("str", b"")
    return None


@model(I + "collect", "std::iter::FromIterator::from_iter")
@with_it
def m_collect(eng, st, c, it):
    d = eng.ty(c.dt)
    if d["k"] == "adt" and d["path"] in (RESULT, OPTION):
        inner = targ(eng, c.dt, 0)
        k = coll_kind(eng, inner)
        if k:
            return collect_into(eng, st, c, it, k[0], k[1], "opt" if d["path"] == OPTION else "res")
    k = coll_kind(eng, c.dt)
    if k is None:
        st.taint("collect")
        return ret(st, fresh(st, "collected", it))
    return collect_into(eng, st, c, it, k[0], k[1])


@model(I + "unzip", I + "partition")
@with_it
def m_unzip(eng, st, c, it):
    st.taint("unzip")
    return ret(st, mk("tup", fresh(st, "collected", it), fresh(st, "collected", it)))


@model("std::iter::Extend::extend")
def m_extend(eng, st, c):
    a = c.args[0]
    out = []
    for s, it in getit(eng, st, c.args[1], c, c.argts[1]):
        if it.k == "adt":
            s, it = to_it(eng, s, it, c)[0]
        cur = W(eng, s, a)
        k = coll_kind(eng, eng.peel(c.argts[0]))
        kind = k[0] if k else "seq"

        def fin(s2, v):
            eng.write_cell(s2, a.a[0], a.a[1], v)
            return ret(s2, UNIT)
        if kind == "seq":
            out.extend(then(collect_into(eng, s, c, it, kind, EMPTY),
                            lambda s2, v: fin(s2, cat_(W(eng, s2, a), v))))
        else:
            out.extend(then(collect_into(eng, s, c, it, kind, cur), fin))
    return out


# ------------------------------------------------------------------ slices
SL = "core::slice::"
VE = "std::vec::Vec::"


def lenm(eng, st, c):
    return ret(st, st.norm(length(W(eng, st, c.args[0]))))


for _n in (SL + "len", VE + "len", "core::str::len", "std::string::String::len", "std::collections::VecDeque::len"):
    MODELS[_n] = lenm
for _n in (SL + "is_empty", VE + "is_empty", "core::str::is_empty", "std::string::String::is_empty",
           "std::iter::ExactSizeIterator::is_empty"):
    MODELS[_n] = lambda eng, st, c: ret(st, ieq(st.norm(length(W(eng, st, c.args[0]))), ZERO))


def et_of(eng, c):
    return eng.elem_ty(c.argts[0]) if c.argts and c.argts[0] is not None else None


def at(eng, st, c, a, idx, mut):
    if mut and a.k == "ref":
        return mk("ref", a.a[0], a.a[1] + (("i", idx, et_of(eng, c)),))
    return eng.elem_(st, W(eng, st, a), idx, et_of(eng, c))


def deref_target(eng, st, a):
    """a &mut whose target is itself a reference or guard"""
    for _ in range(4):
        if a.k == "ref":
            v = eng.load_ref(st, a)
            if v.k == "ref":
                a = v
                continue
            if v.k == "guard":
                eng.guard_value(st, v)
                a = mk("ref", ("lock", v.a[0]), ())
                continue
        break
    return a


@model(SL + "first", SL + "last", SL + "first_mut", SL + "last_mut")
def m_first(eng, st, c):
    a = deref_target(eng, st, c.args[0])
    n = st.norm(length(W(eng, st, a)))
    mut = c.path.endswith("_mut")
    idx = ZERO if "first" in c.path else sub(n, ONE)
    return [("ret", s, some(at(eng, s, c, a, idx, mut)) if b else NONE) for s, b in fork(eng, st, lt(ZERO, n))]


def index_of(eng, st, v, n):
    """-> (kind, a, b): an element index or an [off, off+len) range with validity condition"""
    if v.k == "adt" and v.a[0].startswith("std::ops::Range"):
        p = v.a[0].split("::")[-1]
        f = v.a[2]
        if p == "Range":
            return "r", f[0], sub(f[1], f[0]), conj(le(f[0], f[1]), le(f[1], n))
        if p == "RangeFrom":
            return "r", f[0], sub(n, f[0]), le(f[0], n)
        if p == "RangeTo":
            return "r", ZERO, f[0], le(f[0], n)
        if p == "RangeFull":
            return "r", ZERO, n, TRUE
        if p == "RangeToInclusive":
            return "r", ZERO, add(f[0], ONE), lt(f[0], n)
        if p == "RangeInclusive":
            return "r", f[0], add(sub(f[1], f[0]), ONE), conj(le(f[0], add(f[1], ONE)), lt(f[1], n))
    if v.k == "call" and v.a[0].endswith("RangeInclusive::new"):
        lo, hi = v.a[1], v.a[2]
        return "r", lo, add(sub(hi, lo), ONE), conj(le(lo, add(hi, ONE)), lt(hi, n))
    if v.k in ("zst",) or (v.k == "adt" and v.a[0].endswith("RangeFull")):
        return "r", ZERO, n, TRUE
    return "i", v, None, conj(le(ZERO, v), lt(v, n))


@model("std::ops::RangeInclusive::new")
def m_rinc(eng, st, c):
    return ret(st, adt("std::ops::RangeInclusive", 0, c.args[0], c.args[1], FALSE))


@model("core::ops::RangeInclusive::contains", "std::ops::Range::contains", "std::ops::RangeInclusive::contains",
       "std::ops::RangeBounds::contains")
def m_rcontains(eng, st, c):
    r = W(eng, st, c.args[0])
    x = W(eng, st, c.args[1])
    p = r.a[0].split("::")[-1] if r.k == "adt" else ""
    if p == "Range":
        return ret(st, conj(le(r.a[2][0], x), lt(x, r.a[2][1])))
    if p == "RangeInclusive":
        return ret(st, conj(le(r.a[2][0], x), le(x, r.a[2][1])))
    return ret(st, mk("call", c.path, r, x))


def index(eng, st, c, a, iv, mut, fail):
    a = deref_target(eng, st, a)
    v = W(eng, st, a)
    d = eng.ty(eng.peel(c.argts[0])) if c.argts[0] is not None else {}
    if d.get("k") == "adt" and d.get("path") == "primitive_types::U256":
        pass
    if d.get("k") == "adt" and d.get("path") in ("std::collections::HashMap", "std::collections::BTreeMap"):
        key = W(eng, st, iv)
        r = mk("mapget", v, key)
        return [("ret", s, p) if i else fail(s)[0] for s, i, p in cases(eng, st, r)]
    n = st.norm(length(v))
    kind, x, y, cond = index_of(eng, st, W(eng, st, iv) if iv.k == "ref" else iv, n)
    out = []
    for s, okv in fork(eng, st, cond):
        if not okv:
            out.extend(fail(s))
        elif kind == "i":
            out.append(("ret", s, at(eng, s, c, a, s.norm(x), mut)))
        elif mut and a.k == "ref":
            out.append(("ret", s, mk("ref", a.a[0], a.a[1] + (("s", s.norm(x), s.norm(y)),))))
        else:
            out.append(("ret", s, slice_(v, s.norm(x), s.norm(y))))
    return out


@model("std::ops::Index::index")
def m_index(eng, st, c):
    return index(eng, st, c, c.args[0], c.args[1], False, lambda s: panic(s, "index out of bounds", c))


@model("std::ops::IndexMut::index_mut")
def m_indexmut(eng, st, c):
    return index(eng, st, c, c.args[0], c.args[1], True, lambda s: panic(s, "index out of bounds", c))


@model(SL + "get", SL + "get_mut", VE + "get")
def m_get(eng, st, c):
    outs = index(eng, st, c, c.args[0], c.args[1], c.path.endswith("_mut"), lambda s: [("none", s, None)])
    return [("ret", o[1], NONE) if o[0] == "none" else ("ret", o[1], some(o[2])) if o[0] == "ret" else o for o in outs]


@model(SL + "get_unchecked", SL + "get_unchecked_mut")
def m_getun(eng, st, c):
    st.ev("unchecked", c.path, c.site)
    return index(eng, st, c, c.args[0], c.args[1], c.path.endswith("_mut"),
                 lambda s: panic(s, "unchecked index out of bounds", c))


@model(SL + "split_at", SL + "split_at_mut", SL + "split_at_checked")
def m_splitat(eng, st, c):
    a = deref_target(eng, st, c.args[0])
    v = W(eng, st, a)
    n, m = st.norm(length(v)), c.args[1]
    out = []
    for s, okv in fork(eng, st, le(m, n)):
        if okv:
            if a.k == "ref" and c.path.endswith("mut"):
                t = mk("tup", mk("ref", a.a[0], a.a[1] + (("s", ZERO, m),)),
                       mk("ref", a.a[0], a.a[1] + (("s", m, sub(n, m)),)))
            else:
                t = mk("tup", slice_(v, ZERO, m), slice_(v, m, sub(n, m)))
            out.append(("ret", s, some(t) if c.path.endswith("checked") else t))
        elif c.path.endswith("checked"):
            out.append(("ret", s, NONE))
        else:
            out.extend(panic(s, "split_at out of bounds", c))
    return out


@model(SL + "split_first", SL + "split_last")
def m_splitfirst(eng, st, c):
    v = W(eng, st, c.args[0])
    n = st.norm(length(v))
    out = []
    for s, okv in fork(eng, st, lt(ZERO, n)):
        if not okv:
            out.append(("ret", s, NONE))
        elif c.path.endswith("first"):
            out.append(("ret", s, some(mk("tup", eng.elem_(s, v, ZERO, et_of(eng, c)), slice_(v, ONE, sub(n, ONE))))))
        else:
            out.append(("ret", s, some(mk("tup", eng.elem_(s, v, sub(n, ONE), et_of(eng, c)), slice_(v, ZERO, sub(n, ONE))))))
    return out


@model(SL + "first_chunk", SL + "split_first_chunk")
def m_firstchunk(eng, st, c):
    v = W(eng, st, c.args[0])
    n = st.norm(length(v))
    N = None
    for a in c.callee.get("args", []):
        if "const" in a and isinstance(a["const"], int):
            N = a["const"]
    if N is None:
        # from the result type
        t = targ(eng, c.dt, 0)
        d = eng.ty(eng.peel(t)) if t is not None else {"k": "?"}
        if d["k"] == "tuple":
            d = eng.ty(eng.peel(d["elems"][0]))
        if d["k"] == "array":
            N = d["len"].get("const")
    if N is None:
        st.taint("first_chunk")
        return ret(st, mk("call", c.path, v))
    out = []
    for s, okv in fork(eng, st, le(integer(N), n)):
        if not okv:
            out.append(("ret", s, NONE))
        else:
            h = slice_(v, ZERO, integer(N))
            out.append(("ret", s, some(h if not "split" in c.path else mk("tup", h, slice_(v, integer(N), sub(n, integer(N)))))))
    return out


@model(SL + "chunks", SL + "chunks_exact", SL + "windows", SL + "chunks_mut", SL + "chunks_exact_mut", SL + "rchunks")
def m_chunks(eng, st, c):
    v = W(eng, st, c.args[0])
    n = c.args[1]
    L = st.norm(length(v))
    if c.path.endswith("windows"):
        out = []
        for s, b in fork(eng, st, le(n, L)):
            out.append(("ret", s, base(mk("view", "windows", v, n), add(sub(L, n), ONE) if b else ZERO)))
        return out
    if c.path.endswith("_mut"):
        if c.path.endswith("chunks_mut"):
            st.taint("chunks_mut")
        return ret(st, base(mk("view", "mchunks", deref_target(eng, st, c.args[0]), n), div(L, n)))
    if c.path.endswith("rchunks"):
        st.taint("rchunks")
    if c.path.endswith("chunks"):
        return ret(st, base(mk("view", "chunks", v, n, L), div(add(L, sub(n, ONE)), n)))
    return ret(st, base(mk("view", "chunksx", v, n), div(L, n)))


@model("core::slice::ascii::is_ascii", "core::slice::is_ascii", "core::str::is_ascii", "core::slice::is_sorted")
def m_pred(eng, st, c):
    return ret(st, mk("pred", c.path.split("::")[-1], W(eng, st, c.args[0])))


@model("std::slice::ChunksExact::remainder", "core::slice::ChunksExact::remainder")
def m_remainder(eng, st, c):
    it = W(eng, st, c.args[0])
    if it.k == "it" and it.a[0].k == "view" and it.a[0].a[0] == "chunksx":
        v, n = it.a[0].a[1], it.a[0].a[2]
        L = st.norm(length(v))
        r = eng.rem_(st, L, n)
        return ret(st, slice_(v, sub(L, r), r))
    return eng.mod.opaque_result(eng, st, c, mk("call", c.path, *c.args))


@model(SL + "contains", VE + "contains")
def m_contains(eng, st, c):
    v, x = W(eng, st, c.args[0]), W(eng, st, c.args[1])
    n = length(v)
    if n.k == "int" and n.a[0] <= 64:
        r = FALSE
        for i in range(n.a[0]):
            r = disj(r, eq(eng.elem_(st, v, integer(i), et_of(eng, c)), x))
        return ret(st, r)
    return ret(st, mk("contains", v, x))


@model(SL + "starts_with", SL + "ends_with")
def m_starts(eng, st, c):
    v, x = W(eng, st, c.args[0]), W(eng, st, c.args[1])
    n, m = st.norm(length(v)), st.norm(length(x))
    out = []
    for s, b in fork(eng, st, le(m, n)):
        out.append(("ret", s, eq(slice_(v, ZERO if "starts" in c.path else sub(n, m), m), x) if b else FALSE))
    return out


@model(SL + "strip_prefix")
def m_stripp(eng, st, c):
    v, x = W(eng, st, c.args[0]), W(eng, st, c.args[1])
    n, m = st.norm(length(v)), st.norm(length(x))
    out = []
    for s, b in fork(eng, st, le(m, n)):
        if not b:
            out.append(("ret", s, NONE))
            continue
        for s2, e in fork(eng, s, eq(slice_(v, ZERO, m), x)):
            out.append(("ret", s2, some(slice_(v, m, sub(n, m))) if e else NONE))
    return out


@model(SL + "copy_from_slice", SL + "clone_from_slice")
def m_copyfrom(eng, st, c):
    a = deref_target(eng, st, c.args[0])
    cur, v = W(eng, st, a), W(eng, st, c.args[1])
    out = []
    for s, okv in fork(eng, st, ieq(st.norm(length(cur)), st.norm(length(v)))):
        if okv:
            if a.k == "ref":
                eng.write_cell(s, a.a[0], a.a[1], v)
            else:
                s.taint("copy_from_slice")
            out.append(("ret", s, UNIT))
        else:
            out.extend(panic(s, "copy_from_slice length mismatch", c))
    return out


@model(SL + "fill")
def m_fill(eng, st, c):
    a = deref_target(eng, st, c.args[0])
    cur = W(eng, st, a)
    eng.write_cell(st, a.a[0], a.a[1], mk("rept", c.args[1], length(cur)))
    return ret(st, UNIT)


@model(SL + "reverse")
def m_reverse(eng, st, c):
    a = deref_target(eng, st, c.args[0])
    v = W(eng, st, a)
    from .engine import expand
    v = expand(v)
    if v.k in ("arr", "bytes"):
        r = mk(v.k, tuple(reversed(v.a[0])))
    else:
        r = reverse_(v)
    eng.write_cell(st, a.a[0], a.a[1], r)
    return ret(st, UNIT)


@model(SL + "swap")
def m_swap(eng, st, c):
    a = deref_target(eng, st, c.args[0])
    v = W(eng, st, a)
    i, j = c.args[1], c.args[2]
    n = st.norm(length(v))
    out = []
    for s, okv in fork(eng, st, conj(lt(i, n), lt(j, n))):
        if not okv:
            out.extend(panic(s, "swap out of bounds", c))
            continue
        x, y = eng.elem_(s, v, i, et_of(eng, c)), eng.elem_(s, v, j, et_of(eng, c))
        eng.write_cell(s, a.a[0], a.a[1], eng.updelem(s, eng.updelem(s, v, i, y), j, x))
        out.append(("ret", s, UNIT))
    return out


for _n in ("sort", "sort_unstable", "sort_by", "sort_by_key", "sort_unstable_by", "sort_unstable_by_key", "dedup", "rotate_left",
           "rotate_right", "sort_by_cached_key"):
    def _srt(eng, st, c, _n=_n):
        a = deref_target(eng, st, c.args[0])
        v = W(eng, st, a)
        r = mk("sorted", _n, v)
        if length(v).k == "int" and _n != "dedup":
            ALEN.setdefault(r, length(v).a[0])
        eng.write_cell(st, a.a[0], a.a[1], r)
        return ret(st, UNIT)
    MODELS[SL + _n] = _srt
    MODELS[VE + _n] = _srt
    MODELS["std::slice::" + _n] = _srt


def is_text(eng, t):
    d = eng.ty(eng.peel(t)) if t is not None else {"k": "?"}
    return d["k"] == "str" or d["k"] == "adt" and d["path"] == "std::string::String"


@model(SL + "concat", "std::slice::concat", SL + "join", "std::slice::join")
def m_concat(eng, st, c):
    v = W(eng, st, c.args[0])
    n = length(v)
    sepv = EMPTY
    if len(c.args) > 1:
        sepv = W(eng, st, c.args[1])
        sepv = mk("seq", (mk("b", sepv),)) if is_int(sepv) else sepv
        if sepv.k not in ("seq", "bytes", "arr"):
            n = mk("unk", "join")
    if n.k == "int" and n.a[0] <= 64 and not is_text(eng, c.dt):
        out = EMPTY
        for i in range(n.a[0]):
            out = cat_(out, sepv) if i else out
            out = cat_(out, W(eng, st, eng.elem_(st, v, integer(i), None)))
        return ret(st, out)
    st.taint("concat")
    return ret(st, mk("call", c.path, v))


@model(SL + "repeat", "std::slice::repeat")
def m_repeat(eng, st, c):
    v = W(eng, st, c.args[0])
    if length(v) is ONE:
        return ret(st, mk("rept", elem(v, ZERO), c.args[1]))
    return ret(st, mk("call", c.path, v, c.args[1]))


@model(SL + "binary_search", SL + "partition_point")
def m_bsearch(eng, st, c):
    return ret(st, mk("call", c.path, *[W(eng, st, a) for a in c.args]))


# ------------------------------------------------------------------ Vec
@model(VE + "new", VE + "with_capacity", "std::string::String::new", "std::string::String::with_capacity",
       "std::collections::VecDeque::new")
def m_vnew(eng, st, c):
    if "String" in c.path:
        return ret(st, mk("str", b""))
    if c.path.endswith("with_capacity"):
        st.ev("alloc", c.args[0], c.site)
    return ret(st, EMPTY)


@model("std::vec::from_elem")
def m_fromelem(eng, st, c):
    st.ev("alloc", c.args[1], c.site)
    return ret(st, mk("rept", c.args[0], c.args[1]))


def setref(eng, st, a, v):
    a = deref_target(eng, st, a)
    if a.k == "ref":
        eng.write_cell(st, a.a[0], a.a[1], v)
    else:
        st.taint("write through an untracked reference")


@model(VE + "push", "std::collections::VecDeque::push_back")
def m_push(eng, st, c):
    v = W(eng, st, c.args[0])
    setref(eng, st, c.args[0], seq(tuple(as_segs(v)) + (mk("b", c.args[1]),)))
    return ret(st, UNIT)


@model(VE + "extend_from_slice", VE + "append")
def m_efs(eng, st, c):
    v, w = W(eng, st, c.args[0]), W(eng, st, c.args[1])
    setref(eng, st, c.args[0], cat_(v, w))
    if c.path.endswith("append"):
        setref(eng, st, c.args[1], EMPTY)
    return ret(st, UNIT)


@model(VE + "insert")
def m_vinsert(eng, st, c):
    v = W(eng, st, c.args[0])
    i = c.args[1]
    n = st.norm(length(v))
    out = []
    for s, okv in fork(eng, st, le(i, n)):
        if not okv:
            out.extend(panic(s, "insert out of bounds", c))
            continue
        setref(eng, s, c.args[0], seq((mk("cat", slice_(v, ZERO, i)), mk("b", c.args[2]), mk("cat", slice_(v, i, sub(n, i))))))
        out.append(("ret", s, UNIT))
    return out


@model(VE + "remove", VE + "swap_remove")
def m_vremove(eng, st, c):
    v = W(eng, st, c.args[0])
    i = c.args[1]
    n = st.norm(length(v))
    out = []
    for s, okv in fork(eng, st, lt(i, n)):
        if not okv:
            out.extend(panic(s, "remove out of bounds", c))
            continue
        x = eng.elem_(s, v, i, et_of(eng, c))
        j = add(i, ONE)
        if c.path.endswith("swap_remove"):
            r = mk("call", "swap_remove", v, i)
        else:
            r = seq((mk("cat", slice_(v, ZERO, i)), mk("cat", slice_(v, j, sub(n, j)))))
        setref(eng, s, c.args[0], r)
        out.append(("ret", s, x))
    return out


@model(VE + "pop", "std::collections::VecDeque::pop_back")
def m_pop(eng, st, c):
    v = W(eng, st, c.args[0])
    n = st.norm(length(v))
    out = []
    for s, more in fork(eng, st, lt(ZERO, n)):
        if more:
            x = eng.elem_(s, v, sub(n, ONE), et_of(eng, c))
            setref(eng, s, c.args[0], slice_(v, ZERO, sub(n, ONE)))
            out.append(("ret", s, some(x)))
        else:
            out.append(("ret", s, NONE))
    return out


@model(VE + "clear", "std::string::String::clear")
def m_clear(eng, st, c):
    setref(eng, st, c.args[0], EMPTY if "Vec" in c.path else mk("str", b""))
    return ret(st, UNIT)


@model(VE + "truncate")
def m_truncate(eng, st, c):
    v = W(eng, st, c.args[0])
    n = st.norm(length(v))
    out = []
    for s, cut in fork(eng, st, lt(c.args[1], n)):
        if cut:
            setref(eng, s, c.args[0], slice_(v, ZERO, c.args[1]))
        out.append(("ret", s, UNIT))
    return out


@model(VE + "resize")
def m_resize(eng, st, c):
    v = W(eng, st, c.args[0])
    n = st.norm(length(v))
    m = c.args[1]
    out = []
    for s, cut in fork(eng, st, lt(m, n)):
        if cut:
            setref(eng, s, c.args[0], slice_(v, ZERO, m))
        else:
            setref(eng, s, c.args[0], cat_(v, mk("rept", c.args[2], sub(m, n))))
        out.append(("ret", s, UNIT))
    return out


@model(VE + "reserve", VE + "shrink_to_fit", VE + "reserve_exact", "std::string::String::reserve")
def m_reserve(eng, st, c):
    return ret(st, UNIT)


@model(VE + "capacity")
def m_cap(eng, st, c):
    r = fresh(st, "capacity")
    RANGE[r] = (0, LENMAX)
    return ret(st, r)


@model(VE + "drain")
def m_drain(eng, st, c):
    v = W(eng, st, c.args[0])
    n = st.norm(length(v))
    kind, x, y, cond = index_of(eng, st, c.args[1], n)
    out = []
    for s, okv in fork(eng, st, cond):
        if not okv:
            out.extend(panic(s, "drain out of bounds", c))
            continue
        part = slice_(v, x, y)
        e = add(x, y)
        setref(eng, s, c.args[0], seq((mk("cat", slice_(v, ZERO, x)), mk("cat", slice_(v, e, sub(n, e))))))
        out.append(("ret", s, base(mk("view", "elems", part, et_of(eng, c)), s.norm(length(part)))))
    return out


@model(VE + "split_off")
def m_splitoff(eng, st, c):
    v = W(eng, st, c.args[0])
    n = st.norm(length(v))
    out = []
    for s, okv in fork(eng, st, le(c.args[1], n)):
        if not okv:
            out.extend(panic(s, "split_off out of bounds", c))
            continue
        setref(eng, s, c.args[0], slice_(v, ZERO, c.args[1]))
        out.append(("ret", s, slice_(v, c.args[1], sub(n, c.args[1]))))
    return out


@model(VE + "retain")
def m_retain(eng, st, c):
    v = W(eng, st, c.args[0])
    setref(eng, st, c.args[0], mk("call", "retain", v, c.args[1]))
    return ret(st, UNIT)


@model("core::array::map", "std::array::from_fn", "core::array::from_fn")
def m_arrmap(eng, st, c):
    d = eng.ty(c.dt)
    n = d["len"].get("const") if d["k"] == "array" else None
    if n is None or n > 64:
        st.taint("array map")
        return ret(st, mk("call", c.path, *c.args))
    outs = [("ret", st, EMPTY)]
    for i in range(n):
        def stp(s, acc, i=i):
            if c.path.endswith("from_fn"):
                q = callv(eng, s, c.args[0], [integer(i)], c, i)
            else:
                q = callv(eng, s, c.args[1], [eng.elem_(s, W(eng, s, c.args[0]), integer(i), None)], c, i)
            return then(q, lambda s2, v: ret(s2, seq(tuple(as_segs(acc)) + (mk("b", v),))))
        outs = then(outs, stp)
    return outs


# ------------------------------------------------------------------ strings and paths
@model("std::path::Path::join", "std::path::PathBuf::join")
def m_join(eng, st, c):
    return ret(st, mk("path", W(eng, st, c.args[0]), W(eng, st, c.args[1])))


@model("std::path::PathBuf::push")
def m_pathpush(eng, st, c):
    v = W(eng, st, c.args[0])
    setref(eng, st, c.args[0], mk("path", v, W(eng, st, c.args[1])))
    return ret(st, UNIT)


@model("std::path::PathBuf::from", "std::path::PathBuf::new")
def m_pathbuf(eng, st, c):
    return ret(st, W(eng, st, c.args[0]) if c.args else mk("str", b""))


@model("std::path::Path::with_extension", "std::path::Path::with_file_name", "std::path::Path::parent",
       "std::path::Path::file_name")
def m_withext(eng, st, c):
    r = mk("call", c.path, *[W(eng, st, a) for a in c.args])
    return ret(st, r)


@model("std::path::Path::to_str", "std::ffi::OsStr::to_str")
def m_tostr(eng, st, c):
    # a path built from valid UTF-8 strings is valid UTF-8
    v = W(eng, st, c.args[0])
    if utf8(v):
        return ret(st, some(v))
    t = mk("call", "to_str", v)
    return [("ret", s, some(v) if i else NONE) for s, i, p in cases(eng, st, t)]


def utf8(v):
    if v.k in ("str", "hex", "fmtstr") or v in TEXT:
        return True
    if v.k == "path":
        return all(utf8(x) for x in v.a)
    return False


@model("std::path::Path::to_string_lossy", "std::path::Path::display", "std::ffi::OsStr::to_string_lossy",
       "std::path::Path::into_os_string", "std::ffi::OsString::into_string")
def m_lossy(eng, st, c):
    return ret(st, W(eng, st, c.args[0]))


@model("std::string::String::push_str", "std::string::String::push")
def m_pushstr(eng, st, c):
    v = W(eng, st, c.args[0])
    setref(eng, st, c.args[0], mk("strcat", v, W(eng, st, c.args[1])))
    return ret(st, UNIT)


for _n in ("core::str::from_utf8", "std::string::String::from_utf8"):
    def _utf(eng, st, c):
        v = W(eng, st, c.args[0])
        t = mk("call", "from_utf8", v)
        return [("ret", s, ok(mk("utf8", v)) if i == 0 else err(p)) for s, i, p in cases(eng, st, t)]
    MODELS[_n] = _utf


@model("std::string::String::from_utf8_unchecked", "core::str::from_utf8_unchecked", "std::str::from_utf8_unchecked",
       "core::str::converts::from_utf8_unchecked")
def m_utf8un(eng, st, c):
    st.ev("unchecked", c.path, c.site)
    v = W(eng, st, c.args[0])
    t = mk("call", "from_utf8", v)
    out = []
    for s, i, p in cases(eng, st, t):
        out.extend(ret(s, mk("utf8", v)) if i == 0 else panic(s, "unchecked utf8", c))
    return out


# ------------------------------------------------------------------ sets
HS = "std::collections::HashSet::"
HM = "std::collections::HashMap::"
BH = "std::collections::BinaryHeap::"
BS = "std::collections::BTreeSet::"
BM = "std::collections::BTreeMap::"

for _p, _e in ((HS, "emptyset"), (BS, "emptyset"), (HM, "emptymap"), (BM, "emptymap"), (BH, "emptyheap")):
    for _n in ("new", "with_capacity"):
        MODELS[_p + _n] = lambda eng, st, c, _e=_e: ret(st, mk(_e))


def set_contains(v, x):
    if v.k == "emptyset":
        return FALSE
    if v.k == "setins":
        return disj(eq(v.a[1], x), set_contains(v.a[0], x))
    if v.k == "setdel":
        return conj(neg(eq(v.a[1], x)), set_contains(v.a[0], x))
    return mk("setin", v, x)


def m_setcontains(eng, st, c):
    return ret(st, set_contains(W(eng, st, c.args[0]), W(eng, st, c.args[1])))


def m_setinsert(eng, st, c):
    v = W(eng, st, c.args[0])
    x = W(eng, st, c.args[1]) if c.args[1].k == "guard" else c.args[1]
    had = set_contains(v, x)
    out = []
    for s, b in fork(eng, st, had):
        if not b:
            setref(eng, s, c.args[0], mk("setins", v, x))
        out.append(("ret", s, boolv(not b)))
    return out


def m_setremove(eng, st, c):
    v = W(eng, st, c.args[0])
    x = W(eng, st, c.args[1])
    had = set_contains(v, x)
    out = []
    for s, b in fork(eng, st, had):
        if b:
            setref(eng, s, c.args[0], v.a[0] if v.k == "setins" and v.a[1] is x else mk("setdel", v, x))
        out.append(("ret", s, boolv(b)))
    return out


def m_settake(eng, st, c):
    v = W(eng, st, c.args[0])
    x = W(eng, st, c.args[1])
    had = set_contains(v, x)
    out = []
    for s, b in fork(eng, st, had):
        if b:
            setref(eng, s, c.args[0], mk("setdel", v, x))
        out.append(("ret", s, some(mk("setitem", v, x)) if b else NONE))
    return out


def m_setget(eng, st, c):
    v = W(eng, st, c.args[0])
    x = W(eng, st, c.args[1])
    return [("ret", s, some(mk("setitem", v, x)) if b else NONE) for s, b in fork(eng, st, set_contains(v, x))]


def m_setreplace(eng, st, c):
    v = W(eng, st, c.args[0])
    x = c.args[1]
    out = []
    for s, b in fork(eng, st, set_contains(v, x)):
        setref(eng, s, c.args[0], mk("setins", mk("setdel", v, x) if b else v, x))
        out.append(("ret", s, some(mk("setitem", v, x)) if b else NONE))
    return out


def collen(v):
    k = v.k
    if k in ("emptyset", "emptymap", "emptyheap"):
        return ZERO
    if k == "setins":
        return add(collen(v.a[0]), ONE)
    if k == "setdel":
        return sub(collen(v.a[0]), ONE)
    if k == "heappush":
        return add(collen(v.a[0]), ONE)
    if k == "heaprest":
        return sub(collen(v.a[0]), ONE)
    return mk("len", v)


def m_collen(eng, st, c):
    return ret(st, st.norm(collen(W(eng, st, c.args[0]))))


for _p in (HS, BS, HM, BM, BH):
    MODELS[_p + "len"] = m_collen
    MODELS[_p + "is_empty"] = lambda eng, st, c: ret(st, ieq(st.norm(collen(W(eng, st, c.args[0]))), ZERO))
    MODELS[_p + "clear"] = lambda eng, st, c, _p=_p: (
        setref(eng, st, c.args[0], mk("emptyset" if "Set" in _p else "emptymap" if "Map" in _p else "emptyheap")),
        ret(st, UNIT))[1]
    for _n in ("reserve", "shrink_to_fit"):
        MODELS[_p + _n] = lambda eng, st, c: ret(st, UNIT)
for _p in (HS, BS):
    MODELS[_p + "contains"] = m_setcontains
    MODELS[_p + "insert"] = m_setinsert
    MODELS[_p + "remove"] = m_setremove
    MODELS[_p + "take"] = m_settake
    MODELS[_p + "get"] = m_setget
    MODELS[_p + "replace"] = m_setreplace
    MODELS[_p + "iter"] = lambda eng, st, c: _coliter(eng, st, c, "setitems")


def _coliter(eng, st, c, kind):
    v = W(eng, st, c.args[0])
    w = mk(kind, v)
    n = mk("len", w)
    st.add_eq(sub(n, collen(v))) if collen(v).k != "len" else None
    return ret(st, base(mk("view", "elems", w, None), n))


# ------------------------------------------------------------------ maps
def map_get(v, x):
    """Option term"""
    if v.k == "emptymap":
        return NONE
    return mk("mapget", v, x)


def lookup(eng, st, v, x):
    """[(st, Option)]"""
    while True:
        if v.k == "emptymap":
            return [(st, NONE)]
        if v.k in ("mapins", "mapdel"):
            t = eq(v.a[1], x)
            out = []
            for s, b in fork(eng, st, t):
                if b:
                    out.append((s, some(v.a[2]) if v.k == "mapins" else NONE))
                else:
                    out.extend(lookup(eng, s, v.a[0], x))
            return out
        t = mk("mapget", v, x)
        return [(st, t)]


def m_mapget(eng, st, c):
    v, x = W(eng, st, c.args[0]), W(eng, st, c.args[1])
    return [("ret", s, o) for s, o in lookup(eng, st, v, x)]


def m_mapcontains(eng, st, c):
    v, x = W(eng, st, c.args[0]), W(eng, st, c.args[1])
    out = []
    for s, o in lookup(eng, st, v, x):
        for s2, i, p in cases(eng, s, o):
            out.append(("ret", s2, boolv(i == 1)))
    return out


def m_mapinsert(eng, st, c):
    v = W(eng, st, c.args[0])
    x, y = c.args[1], c.args[2]
    out = []
    for s, o in lookup(eng, st, v, x):
        setref(eng, s, c.args[0], mk("mapins", v, x, y))
        s.ev("map", "insert", v, x, y, c.site)
        out.append(("ret", s, o))
    return out


def m_mapremove(eng, st, c):
    v, x = W(eng, st, c.args[0]), W(eng, st, c.args[1])
    out = []
    for s, o in lookup(eng, st, v, x):
        setref(eng, s, c.args[0], mk("mapdel", v, x))
        s.ev("map", "remove", v, x, NONE, c.site)
        out.append(("ret", s, o))
    return out


for _p in (HM, BM):
    MODELS[_p + "get"] = m_mapget
    MODELS[_p + "contains_key"] = m_mapcontains
    MODELS[_p + "insert"] = m_mapinsert
    MODELS[_p + "remove"] = m_mapremove
    for _n, _k in (("values", "mapvals"), ("keys", "mapkeys"), ("iter", "mapitems"), ("into_values", "mapvals"),
                   ("into_keys", "mapkeys"), ("values_mut", "mapvals")):
        MODELS[_p + _n] = lambda eng, st, c, _k=_k: _coliter(eng, st, c, _k)

    def _entry(eng, st, c):
        return ret(st, mk("entry", c.args[0], c.args[1]))
    MODELS[_p + "entry"] = _entry

    def _gm(eng, st, c):
        # a fallible borrow of the stored value
        v, x = W(eng, st, c.args[0]), W(eng, st, c.args[1])
        out = []
        for s, o in lookup(eng, st, v, x):
            for s2, i, p in cases(eng, s, o):
                if i == 0:
                    out.append(("ret", s2, NONE))
                else:
                    s2.taint("get_mut on a map")
                    out.append(("ret", s2, some(p)))
        return out
    MODELS[_p + "get_mut"] = _gm

for _n in ("or_insert", "or_insert_with", "or_default"):
    def _ori(eng, st, c, _n=_n):
        e = c.args[0]
        if e.k != "entry":
            st.taint("entry")
            return ret(st, mk("call", c.path, e))
        m, x = e.a
        v = W(eng, st, m)
        out = []
        for s, o in lookup(eng, st, v, x):
            for s2, i, p in cases(eng, s, o):
                if i == 1:
                    out.append(("ret", s2, p))
                else:
                    q = ret(s2, c.args[1]) if _n == "or_insert" else (
                        callv(eng, s2, c.args[1], [], c) if _n.endswith("with") else ret(s2, mk("unk", "default", 0)))

                    def fin(s3, val):
                        setref(eng, s3, m, mk("mapins", v, x, val))
                        s3.ev("map", "insert", v, x, val, c.site)
                        return ret(s3, val)
                    out.extend(then(q, fin))
        return out
    MODELS["std::collections::hash_map::Entry::" + _n] = _ori
    MODELS["std::collections::btree_map::Entry::" + _n] = _ori


# ------------------------------------------------------------------ heaps
@model(BH + "push")
def m_hpush(eng, st, c):
    v = W(eng, st, c.args[0])
    setref(eng, st, c.args[0], mk("heappush", v, c.args[1]))
    return ret(st, UNIT)


@model(BH + "pop")
def m_hpop(eng, st, c):
    v = W(eng, st, c.args[0])
    out = []
    for s, more in fork(eng, st, lt(ZERO, st.norm(collen(v)))):
        if more:
            setref(eng, s, c.args[0], mk("heaprest", v))
            out.append(("ret", s, some(mk("heapmax", v))))
        else:
            out.append(("ret", s, NONE))
    return out


@model(BH + "peek")
def m_hpeek(eng, st, c):
    v = W(eng, st, c.args[0])
    return [("ret", s, some(mk("heapmax", v)) if b else NONE) for s, b in fork(eng, st, lt(ZERO, st.norm(collen(v))))]


MODELS[BH + "iter"] = lambda eng, st, c: _coliter(eng, st, c, "setitems")
MODELS[BH + "into_vec"] = lambda eng, st, c: ret(st, mk("setitems", W(eng, st, c.args[0])))
MODELS[BH + "into_sorted_vec"] = lambda eng, st, c: ret(st, mk("sorted", "heap", W(eng, st, c.args[0])))
MODELS[BH + "retain"] = MODELS[VE + "retain"]
