"""Models: locks, sled, files, futures."""
from .terms import *
from . import terms as T
from .mcore import model, MODELS, ret, panic, W, fork, cases, then, callv, fresh, targ, is_opt
from .mnum import cat_
from .mseq import setref, deref_target, to_it

ZERO = integer(0)


# ------------------------------------------------------------------ locks
def lock_key(eng, st, v):
    return W(eng, st, v)


@model("parking_lot::lock_api::RwLock::new", "parking_lot::lock_api::Mutex::new", "std::sync::RwLock::new",
       "std::sync::Mutex::new", "tokio::sync::RwLock::new", "tokio::sync::Mutex::new")
def m_locknew(eng, st, c):
    l = fresh(st, "lock", c.args[0])
    st.cells[("lock", l)] = c.args[0]
    return ret(st, l)


def guard_ty(eng, t):
    """the type protected by a guard type"""
    if t is None:
        return None
    d = eng.ty(eng.peel(t))
    if d["k"] != "adt":
        return None
    if d["path"] in (OPTION, RESULT):
        return guard_ty(eng, [a["ty"] for a in d["args"] if "ty" in a][0])
    tys = [a["ty"] for a in d["args"] if "ty" in a]
    return tys[-1] if tys else None


def acquire(eng, st, c, mode):
    l = lock_key(eng, st, c.args[0])
    n = st.epochs.get(l, 0) + 1
    st.epochs[l] = n
    if l.k != "lock":
        key = ("lock", l)
        seqm = getattr(eng, "seq_locks", False)
        if any(g.a[0] is l for g in st.held):
            st.ev("reacquire", l, mode, c.site)
        elif not seqm or key not in st.cells:
            v = mk("lkval", l, integer(0 if seqm else n))
            t = guard_ty(eng, c.dt)
            if t is not None:
                eng.typed(v, t)
            st.cells[key] = v
    g = mk("guard", l, mode, integer(n))
    st.ev("acquire", l, mode, st.cells.get(("lock", l)), c.site)
    st.held = st.held + (g,)
    return g


def lockm(mode, kind):
    def f(eng, st, c):
        if kind == "try":
            s1 = st.copy()
            return [("ret", st, some(acquire(eng, st, c, mode))), ("ret", s1, NONE)]
        if kind == "std":
            return ret(st, ok(acquire(eng, st, c, mode)))
        return ret(st, acquire(eng, st, c, mode))
    return f


for _n in ("read", "upgradable_read", "read_recursive"):
    MODELS["parking_lot::lock_api::RwLock::" + _n] = lockm("r", "")
    MODELS["parking_lot::lock_api::RwLock::try_" + _n] = lockm("r", "try")
MODELS["parking_lot::lock_api::RwLock::write"] = lockm("w", "")
MODELS["parking_lot::lock_api::RwLock::try_write"] = lockm("w", "try")
MODELS["parking_lot::lock_api::Mutex::lock"] = lockm("w", "")
MODELS["std::sync::RwLock::read"] = lockm("r", "std")
MODELS["std::sync::RwLock::write"] = lockm("w", "std")
MODELS["std::sync::Mutex::lock"] = lockm("w", "std")


@model("parking_lot::lock_api::RwLock::into_inner", "parking_lot::lock_api::Mutex::into_inner",
       "parking_lot::lock_api::RwLock::get_mut")
def m_lockinner(eng, st, c):
    l = lock_key(eng, st, c.args[0])
    if c.path.endswith("get_mut"):
        eng.guard_value(st, mk("guard", l, "w", ZERO))
        return ret(st, mk("ref", ("lock", l), ()))
    return ret(st, eng.guard_value(st, mk("guard", l, "w", ZERO)))


# ------------------------------------------------------------------ fallible effects
def fault(eng, st, name, args, c, wrapv=None):
    """an outcome where the operation fails"""
    if not eng.fork_faults:
        return []
    s = st.copy()
    s.ctr += 1
    e = mk("ioerr", name, integer(s.ctr))
    s.ev("fault", name, args, e, c.site)
    return [("ret", s, err(wrapv(e) if wrapv else e))]


def effect(eng, st, name, args, val, c):
    """fallible effect: fault outcome + success outcome"""
    out = fault(eng, st, name, args, c)
    st.ev("op", name, args, val, c.site)
    out.append(("ret", st, ok(val)))
    return out


# ------------------------------------------------------------------ sled
def dbver(st, db):
    return st.dbver.get(db, ZERO)


def dbread(eng, st, db, key):
    """[(st, Option)] with the writes of this run visible"""
    res = []
    work = [(st, list(st.dbover.get(db, ())))]
    while work:
        s, over = work.pop(0)
        done = False
        while over:
            k2, v2 = over.pop(0)
            if k2 is None:
                res.append((s, fresh(s, "dbget?", db, key)))
                done = True
                break
            t = eq(key, k2)
            tr = s.truth(t)
            if tr is False:
                continue
            if tr is True:
                res.append((s, some(v2) if v2 is not None else NONE))
                done = True
                break
            s1 = s.copy()
            if s1.assume(t, True):
                res.append((s1, some(v2) if v2 is not None else NONE))
            if not s.assume(t, False):
                done = True
                break
        if not done:
            res.append((s, mk("dbget", db, key, dbver(s, db))))
    return res


def dbwrite(st, db, key, val):
    st.dbover[db] = ((key, val),) + st.dbover.get(db, ())


def dbarg(eng, st, v):
    v = W(eng, st, v)
    return v.a[0] if v.k == "tx" else v


@model("sled::open", "sled::Config::open")
def m_open(eng, st, c):
    p = W(eng, st, c.args[0])
    return effect(eng, st, "db.open", (p,), mk("db", p), c)


@model("sled::Db::open_tree")
def m_opentree(eng, st, c):
    p = dbarg(eng, st, c.args[0])
    n = W(eng, st, c.args[1])
    return effect(eng, st, "db.open", (p, n), mk("db", p, n), c)


def pre(c):
    return "tx" if "ransaction" in c.path else "db"


@model("sled::Tree::get", "sled::transaction::TransactionalTree::get")
def m_dbget(eng, st, c):
    db = dbarg(eng, st, c.args[0])
    k = W(eng, st, c.args[1])
    name = pre(c) + ".get"
    out = fault(eng, st, name, (db, k), c)
    for s, v in dbread(eng, st, db, k):
        s.ev("op", name, (db, k), v, c.site)
        out.append(("ret", s, ok(v)))
    return out


@model("sled::Tree::contains_key")
def m_dbcontains(eng, st, c):
    db = dbarg(eng, st, c.args[0])
    k = W(eng, st, c.args[1])
    out = fault(eng, st, "db.contains", (db, k), c)
    for s, v in dbread(eng, st, db, k):
        for s2, i, p in cases(eng, s, v):
            s2.ev("op", "db.contains", (db, k), boolv(i == 1), c.site)
            out.append(("ret", s2, ok(boolv(i == 1))))
    return out


@model("sled::Tree::insert", "sled::transaction::TransactionalTree::insert")
def m_dbinsert(eng, st, c):
    db = dbarg(eng, st, c.args[0])
    k, v = W(eng, st, c.args[1]), W(eng, st, c.args[2])
    name = pre(c) + ".insert"
    out = fault(eng, st, name, (db, k, v), c)
    prev = mk("dbprev", db, k, v, integer(st.ctr))
    st.ctr += 1
    st.ev("op", name, (db, k, v), prev, c.site)
    dbwrite(st, db, k, v)
    out.append(("ret", st, ok(prev)))
    return out


@model("sled::Tree::remove", "sled::transaction::TransactionalTree::remove")
def m_dbremove(eng, st, c):
    db = dbarg(eng, st, c.args[0])
    k = W(eng, st, c.args[1])
    name = pre(c) + ".remove"
    out = fault(eng, st, name, (db, k), c)
    for s, v in dbread(eng, st, db, k):
        s.ev("op", name, (db, k), v, c.site)
        dbwrite(s, db, k, None)
        out.append(("ret", s, ok(v)))
    return out


@model("sled::Tree::compare_and_swap")
def m_cas(eng, st, c):
    db = dbarg(eng, st, c.args[0])
    k, old, new = [W(eng, st, a) for a in c.args[1:4]]
    out = fault(eng, st, "db.cas", (db, k, old, new), c)
    s1 = st.copy()
    s1.ev("op", "db.cas", (db, k, old, new), FALSE, c.site)
    out.append(("ret", s1, ok(err(fresh(s1, "caserr", db, k)))))
    for s, v in dbread(eng, st, db, k):
        if s.assume(eq(v, old), True):
            for s2, i, p in cases(eng, s, new):
                s2.ev("op", "db.insert" if i else "db.remove", (db, k, p) if i else (db, k), UNIT, c.site)
                s2.ev("atomic", "cas", db, k)
                dbwrite(s2, db, k, p)
                out.append(("ret", s2, ok(ok(UNIT))))
    return out


@model("sled::Tree::update_and_fetch", "sled::Tree::fetch_and_update")
def m_uaf(eng, st, c):
    db = dbarg(eng, st, c.args[0])
    k = W(eng, st, c.args[1])
    out = fault(eng, st, "db.update", (db, k), c)
    st.ev("tx", "begin", db, c.site)
    for s, v in dbread(eng, st, db, k):
        s.ev("op", "tx.get", (db, k), v, c.site)
        for o in callv(eng, s, c.args[2], [v], c):
            if o[0] != "ret":
                out.append(o)
                continue
            for s2, i, p in cases(eng, o[1], o[2]):
                s2.ev("op", "tx.insert" if i else "tx.remove", (db, k, p) if i else (db, k), UNIT, c.site)
                dbwrite(s2, db, k, p)
                s2.ev("tx", "commit", db, c.site)
                out.append(("ret", s2, ok(v if "fetch_and" in c.path else (some(p) if i else NONE))))
    return out


@model("sled::Tree::clear")
def m_dbclear(eng, st, c):
    db = dbarg(eng, st, c.args[0])
    out = effect(eng, st, "db.clear", (db,), UNIT, c)
    s = out[-1][1]
    s.dbover[db] = ()
    s.dbver[db] = fresh(s, "cleared")
    return out


@model("sled::Tree::len")
def m_dblen(eng, st, c):
    db = dbarg(eng, st, c.args[0])
    st.ev("op", "db.len", (db,), UNIT, c.site)
    r = mk("dblen", db, dbver(st, db), integer(len(st.dbover.get(db, ()))))
    RANGE.setdefault(r, (0, LENMAX))
    return ret(st, r)


@model("sled::Tree::is_empty")
def m_dbempty(eng, st, c):
    db = dbarg(eng, st, c.args[0])
    st.ev("op", "db.len", (db,), UNIT, c.site)
    r = mk("dblen", db, dbver(st, db), integer(len(st.dbover.get(db, ()))))
    RANGE.setdefault(r, (0, LENMAX))
    return ret(st, ieq(r, ZERO))


@model("sled::Tree::iter", "sled::Tree::range", "sled::Tree::scan_prefix")
def m_dbiter(eng, st, c):
    db = dbarg(eng, st, c.args[0])
    st.ev("op", "db.iterate", (db,), UNIT, c.site)
    if not c.path.endswith("iter"):
        r = W(eng, st, c.args[1])
        if not (r.k == "adt" and r.a[0] == "std::ops::RangeFull" or r.k == "zst" and "RangeFull" in str(r.a)):
            db = mk("part", db, r)             # only some of the entries
    return ret(st, mk("itext", mk("dbiter", db, ZERO, dbver(st, db)), ZERO))


@model("sled::Iter::keys", "sled::Iter::values")
def m_iterkeys(eng, st, c):
    it = W(eng, st, c.args[0])
    if it.k == "itext" and it.a[0].k == "dbiter":
        d = it.a[0]
        return ret(st, mk("itext", mk("dbiter", d.a[0], integer(1 if c.path.endswith("keys") else 2), d.a[2]), it.a[1]))
    st.taint("sled iterator")
    return ret(st, mk("itext", it, ZERO))


@model("sled::Tree::first", "sled::Tree::last", "sled::Tree::get_lt", "sled::Tree::get_gt", "sled::Tree::pop_max",
       "sled::Tree::pop_min")
def m_dbfirst(eng, st, c):
    db = dbarg(eng, st, c.args[0])
    v = fresh(st, "dbend", db, mk("str", c.path.encode()))
    return effect(eng, st, "db." + c.path.rsplit("::", 1)[1], (db,), v, c)


@model("sled::Tree::flush")
def m_flush(eng, st, c):
    db = dbarg(eng, st, c.args[0])
    return effect(eng, st, "db.flush", (db,), fresh(st, "flushed"), c)


@model("sled::Tree::apply_batch", "sled::transaction::TransactionalTree::apply_batch")
def m_batch(eng, st, c):
    db = dbarg(eng, st, c.args[0])
    b = W(eng, st, c.args[1])
    out = fault(eng, st, "db.batch", (db, b), c)
    ops = []
    x = b
    good = True
    while x.k in ("batchins", "batchrem"):
        ops.append(x)
        x = x.a[0]
    if x.k != "batch":
        good = False
    for o in reversed(ops):
        if o.k == "batchins":
            st.ev("op", pre(c) + ".insert", (db, o.a[1], o.a[2]), UNIT, c.site)
            dbwrite(st, db, o.a[1], o.a[2])
        else:
            st.ev("op", pre(c) + ".remove", (db, o.a[1]), UNIT, c.site)
            dbwrite(st, db, o.a[1], None)
    if not good:
        st.taint("batch")
    out.append(("ret", st, ok(UNIT)))
    return out


MODELS["sled::Batch::default"] = lambda eng, st, c: ret(st, mk("batch"))


@model("sled::Batch::insert")
def m_bins(eng, st, c):
    v = W(eng, st, c.args[0])
    v = mk("batch") if v.k in ("zst", "call") else v
    setref(eng, st, c.args[0], mk("batchins", v, W(eng, st, c.args[1]), W(eng, st, c.args[2])))
    return ret(st, UNIT)


@model("sled::Batch::remove")
def m_brem(eng, st, c):
    v = W(eng, st, c.args[0])
    v = mk("batch") if v.k in ("zst", "call") else v
    setref(eng, st, c.args[0], mk("batchrem", v, W(eng, st, c.args[1])))
    return ret(st, UNIT)


@model("sled::Tree::transaction", "sled::transaction::Transactional::transaction")
def m_tx(eng, st, c):
    db = W(eng, st, c.args[0])
    if db.k == "tup" or db.k == "arr":
        dbs = [W(eng, st, x) for x in (db.a if db.k == "tup" else db.a[0])]
        handle = mk(db.k, *[mk("tx", d) for d in dbs]) if db.k == "tup" else mk("arr", tuple(mk("tx", d) for d in dbs))
    else:
        dbs = [db]
        handle = mk("tx", db)
    out = attempt(eng, st.copy(), c, dbs, handle)
    # the engine runs the closure again after a conflict, and what the earlier run left behind in captured variables is
    # then still there: an earlier run on other contents, of which only that is kept
    before = dict(st.cells)
    s0 = st.copy()
    s0.dbover = {k: v for k, v in s0.dbover.items() if k not in dbs}
    for d in dbs:
        s0.dbver[d] = fresh(s0, "conflict")
    faults, eng.fork_faults = eng.fork_faults, False
    try:
        early = callv(eng, s0, c.args[1], [handle], c)
    finally:
        eng.fork_faults = faults
    for o in early:
        if o[0] != "ret":
            continue
        for s, i, p in cases(eng, o[1], o[2]):
            if i == 0 and any(s.cells.get(k) is not v for k, v in before.items()):
                s.trace = st.trace
                s.dbover, s.dbver = dict(st.dbover), dict(st.dbver)
                out.extend(attempt(eng, s, c, dbs, handle))
    return out


def attempt(eng, st, c, dbs, handle):
    """the execution of a storage transaction that takes effect, or that fails for good"""
    over, ver = dict(st.dbover), dict(st.dbver)
    for d in dbs:
        st.ev("tx", "begin", d, c.site)
    out = []
    for o in callv(eng, st, c.args[1], [handle], c):
        if o[0] != "ret":
            out.append(o)
            continue
        for s, i, p in cases(eng, o[1], o[2]):
            if i == 1:
                s.dbover, s.dbver = dict(over), dict(ver)
                for d in dbs:
                    s.ev("tx", "abort", d, c.site)
                out.append(("ret", s, err(mk("txerr", p))))
            else:
                if eng.fork_faults:
                    s1 = s.copy()
                    s1.dbover, s1.dbver = dict(over), dict(ver)
                    s1.ctr += 1
                    e = mk("ioerr", "tx.commit", integer(s1.ctr))
                    for d in dbs:
                        s1.ev("tx", "abort", d, c.site)
                    s1.ev("fault", "tx.commit", tuple(dbs), e, c.site)
                    out.append(("ret", s1, err(e)))
                for d in dbs:
                    s.ev("tx", "commit", d, c.site)
                out.append(("ret", s, ok(p)))
    return out


MODELS["sled::transaction::abort"] = lambda eng, st, c: ret(st, err(mk("txabort", c.args[0])))
MODELS["sled::Db::was_recovered"] = lambda eng, st, c: ret(st, mk("call", c.path, W(eng, st, c.args[0])))


# ------------------------------------------------------------------ futures
def fut(name):
    def f(eng, st, c):
        return ret(st, mk("fut", name, tuple(c.args), c.dt if c.dt is not None else -1))
    return f


MODELS["sled::Tree::flush_async"] = lambda eng, st, c: ret(st, mk("fut", "db.flush", (dbarg(eng, st, c.args[0]),), -1))
MODELS["std::future::get_context"] = lambda eng, st, c: ret(st, UNIT)


def ready(outs):
    return [("ret", o[1], adt(POLL, 0, o[2])) if o[0] == "ret" else o for o in outs]


@model("std::future::Future::poll")
def m_poll(eng, st, c):
    a = c.args[0]
    v = W(eng, st, a)
    if v.k == "clos":
        return ready(run_clos(eng, st, v, c))
    if v.k == "fut":
        st.ev("await", v.a[0], st.held, c.site)
        return ready(perform(eng, st, v, c))
    if v.k == "unk" or v.k == "call":
        st.ev("await", str(v)[:60], st.held, c.site)
        st.taint("future:" + str(v)[:60])
        r = fresh(st, "awaited", v)
        return ready(ret(st, r))
    st.taint("future")
    return ready(ret(st, fresh(st, "awaited", v)))


def run_clos(eng, st, v, c):
    path = v.a[0]
    body = eng.P.bodies[path]
    eng.visited.add(body["path"])
    if path in eng.prims:
        r = eng.prims[path](eng, st, c)
        if r is not None:
            return r
    if eng._stack.count(path) >= 2:
        st.taint("recursion:" + path)
        return ret(st, fresh(st, "awaited", v))
    eng._stack.append(path)
    try:
        fr = eng.mkframe(body, ("co", c.key, path), c.frame.depth + 1)
        st.cells[(fr.id, 1)] = v
        st.cells[(fr.id, 2)] = UNIT
        outs = eng.run_frame(fr, st)
    finally:
        eng._stack.pop()
    return eng.merge(outs)


class FakeCall:
    pass


def run_future(eng, st, v, site, frame, key):
    c = FakeCall()
    c.site, c.frame, c.key, c.path = site, frame, ("rf", key), "poll"
    c.args, c.argts, c.dt, c.callee = [v], [None], None, {}
    return run_clos(eng, st, v, c)


def perform(eng, st, f, c):
    name, args = f.a[0], f.a[1]
    c2 = FakeCall()
    c2.site, c2.frame, c2.key, c2.path = c.site, c.frame, (c.key, name), name
    c2.args, c2.argts, c2.callee = list(args), [None] * len(args), {}
    c2.dt = None if f.a[2] == -1 else f.a[2]
    op = FILEOPS.get(name)
    if op:
        return op(eng, st, c2)
    if name == "db.flush":
        return effect(eng, st, "db.flush", args, fresh(st, "flushed"), c)
    st.taint("future " + name)
    return ret(st, fresh(st, "awaited", f))


FILEOPS = {}


def fileop(names, async_names=()):
    def d(f):
        for n in names:
            MODELS[n] = f
        for n in async_names:
            FILEOPS[n] = f

            def mkf(eng, st, c, n=n):
                return ret(st, mk("fut", n, tuple(c.args), -1))
            MODELS[n] = mkf
        return f
    return d


# ------------------------------------------------------------------ files
@model("tokio::fs::OpenOptions::new", "std::fs::OpenOptions::new", "tokio::fs::File::options", "std::fs::File::options")
def m_oonew(eng, st, c):
    return ret(st, mk("oo", ()))


for _n in ("create", "truncate", "write", "read", "append", "create_new"):
    def _oo(eng, st, c, _n=_n):
        a = c.args[0]
        v = W(eng, st, a)
        fl = c.args[1]
        if v.k != "oo" or fl.k != "bool":
            st.taint("open options")
            return ret(st, a)
        opts = tuple(sorted((set(v.a[0]) - {_n}) | ({_n} if fl.a[0] else set())))
        setref(eng, st, a, mk("oo", opts))
        return ret(st, a)
    MODELS["tokio::fs::OpenOptions::" + _n] = _oo
    MODELS["std::fs::OpenOptions::" + _n] = _oo


def newfile(st, p):
    f = fresh(st, "file", p)
    st.cells[("fpos", f)] = ZERO
    return f


@fileop(["std::fs::OpenOptions::open"], ["tokio::fs::OpenOptions::open"])
def f_open(eng, st, c):
    oo, p = W(eng, st, c.args[0]), W(eng, st, c.args[1])
    flags = oo.a[0] if oo.k == "oo" else ("?",)
    f = newfile(st, p)
    out = effect(eng, st, "fs.open", (p, mk("flags", flags)), f, c)
    return out


@fileop(["std::fs::File::open"], ["tokio::fs::File::open"])
def f_fopen(eng, st, c):
    p = W(eng, st, c.args[0])
    return effect(eng, st, "fs.open", (p, mk("flags", ("read",))), newfile(st, p), c)


@fileop(["std::fs::File::create"], ["tokio::fs::File::create"])
def f_create(eng, st, c):
    p = W(eng, st, c.args[0])
    return effect(eng, st, "fs.open", (p, mk("flags", ("create", "truncate", "write"))), newfile(st, p), c)


@fileop(["std::fs::File::create_new"], ["tokio::fs::File::create_new"])
def f_createnew(eng, st, c):
    p = W(eng, st, c.args[0])
    return effect(eng, st, "fs.open", (p, mk("flags", ("create_new", "write"))), newfile(st, p), c)


def target_of(v):
    while v.k in ("zenc", "bufw", "zdec", "bufr"):
        v = v.a[0]
    return v


@fileop(["std::io::Write::write_all"], ["tokio::io::AsyncWriteExt::write_all"])
def f_writeall(eng, st, c):
    return write_some(eng, st, c, c.args[0], W(eng, st, c.args[1]))


def write_some(eng, st, c, a, data):
    v = W(eng, st, a)
    if v.k in ("seq", "arr", "bytes", "rept", "slice", "sym", "acc", "vf") and a.k == "ref":
        setref(eng, st, a, cat_(v, data))
        return ret(st, ok(UNIT))
    return effect(eng, st, "fs.write", (v, data), UNIT, c)


@fileop(["std::io::Write::write"], ["tokio::io::AsyncWriteExt::write"])
def f_write(eng, st, c):
    v, d = W(eng, st, c.args[0]), W(eng, st, c.args[1])
    n = fresh(st, "written", v)
    RANGE[n] = (0, LENMAX)
    st.ev("partial-write", v, d, c.site)
    return effect(eng, st, "fs.write.partial", (v, d), n, c)


@fileop(["std::io::Write::flush"], ["tokio::io::AsyncWriteExt::flush", "tokio::io::AsyncWriteExt::shutdown"])
def f_flush(eng, st, c):
    return effect(eng, st, "fs.flush", (W(eng, st, c.args[0]),), UNIT, c)


@fileop(["std::fs::File::sync_all", "std::fs::File::sync_data"], ["tokio::fs::File::sync_all", "tokio::fs::File::sync_data"])
def f_sync(eng, st, c):
    return effect(eng, st, "fs.sync", (W(eng, st, c.args[0]),), UNIT, c)


@fileop(["std::fs::File::set_len"], ["tokio::fs::File::set_len"])
def f_setlen(eng, st, c):
    return effect(eng, st, "fs.setlen", (W(eng, st, c.args[0]), c.args[1]), UNIT, c)


@fileop(["std::fs::rename"], ["tokio::fs::rename"])
def f_rename(eng, st, c):
    return effect(eng, st, "fs.rename", (W(eng, st, c.args[0]), W(eng, st, c.args[1])), UNIT, c)


def mentions(x, e):
    return x is e or isinstance(x, V) and any(mentions(y, e) for y in x.a if isinstance(y, V))


def copies(eng, st, c, name):
    """record what is known about the kind of the entry that is copied"""
    p = W(eng, st, c.args[0])
    if p.k != "path" or p.a[1].k != "dename":
        return
    e = p.a[1].a[0]
    facts = [(x, v) for x, v in st.bools.items() if mentions(x, e)]
    known = [v for x, v in facts if x.k == "isdir"]
    st.ev("copies", name, known[0] if known and len(set(known)) == 1 else None, bool(facts) and not known, c.site)


@fileop(["std::fs::copy"], ["tokio::fs::copy"])
def f_copy(eng, st, c):
    copies(eng, st, c, "fs.copy")
    n = fresh(st, "copied")
    return effect(eng, st, "fs.copy", (W(eng, st, c.args[0]), W(eng, st, c.args[1])), n, c)


@fileop(["std::fs::write"], ["tokio::fs::write"])
def f_fswrite(eng, st, c):
    p, d = W(eng, st, c.args[0]), W(eng, st, c.args[1])
    out = []
    f = newfile(st, p)
    for o in effect(eng, st, "fs.open", (p, mk("flags", ("create", "truncate", "write"))), f, c):
        if o[2].a[1] == 0:
            out.extend(effect(eng, o[1], "fs.write", (f, d), UNIT, c))
        else:
            out.append(o)
    return out


@fileop(["std::fs::read"], ["tokio::fs::read"])
def f_fsread(eng, st, c):
    p = W(eng, st, c.args[0])
    out = []
    f = newfile(st, p)
    for o in effect(eng, st, "fs.open", (p, mk("flags", ("read",))), f, c):
        if o[2].a[1] == 0:
            out.extend(effect(eng, o[1], "fs.read", (f,), mk("filedata", p), c))
        else:
            out.append(o)
    return out


for _n in ("create_dir", "create_dir_all", "remove_dir", "remove_dir_all", "remove_file"):
    def _fd(eng, st, c, _n=_n):
        return effect(eng, st, "fs." + _n, (W(eng, st, c.args[0]),), UNIT, c)
    fileop(["std::fs::" + _n], ["tokio::fs::" + _n])(_fd)


@fileop(["std::fs::read_dir"], [])
def f_readdir(eng, st, c):
    p = W(eng, st, c.args[0])
    return effect(eng, st, "fs.read_dir", (p,), mk("dirents", p), c)


@model("std::fs::DirEntry::path")
def m_depath(eng, st, c):
    v = W(eng, st, c.args[0])
    return ret(st, mk("path", v.a[0].a[0], mk("dename", v)) if v.k == "dirent" else mk("call", c.path, v))


@model("std::fs::DirEntry::file_name")
def m_dename(eng, st, c):
    return ret(st, mk("dename", W(eng, st, c.args[0])))


@model("std::fs::DirEntry::file_type", "std::fs::DirEntry::metadata", "std::fs::metadata")
def m_deft(eng, st, c):
    v = W(eng, st, c.args[0])
    # metadata(path) follows links; the type of a directory entry may be a link
    kind = "mtype" if c.path.endswith("fs::metadata") else "ftype"
    return effect(eng, st, "fs.file_type", (v,), mk(kind, v), c)


@model("std::fs::FileType::is_dir", "std::fs::Metadata::is_dir", "std::path::Path::is_dir")
def m_isdir(eng, st, c):
    return ret(st, mk("isdir", W(eng, st, c.args[0])))


@model("std::fs::FileType::is_file", "std::fs::Metadata::is_file")
def m_isfile(eng, st, c):
    v = W(eng, st, c.args[0])
    d = mk("isdir", v)
    if v.k != "ftype":
        return ret(st, neg(d))
    # neither a directory nor a file: a link
    out = []
    for s, isd in fork(eng, st, d):
        out.append(("ret", s, FALSE if isd else neg(mk("islink", v))))
    return out


@model("std::fs::FileType::is_symlink")
def m_islink(eng, st, c):
    v = W(eng, st, c.args[0])
    out = []
    for s, isd in fork(eng, st, mk("isdir", v)):
        out.append(("ret", s, FALSE if isd else mk("islink", v)))
    return out


@model("std::path::Path::parent")
def m_parent(eng, st, c):
    v = W(eng, st, c.args[0])
    return ret(st, some(v.a[0]) if v.k == "path" and v.a[1].k == "dename" else mk("parent", v))


@model("std::path::Path::exists")
def m_exists(eng, st, c):
    p = W(eng, st, c.args[0])
    st.ev("op", "fs.exists", (p,), UNIT, c.site)
    return ret(st, mk("fsexists", p, integer(st.ctr)))


def content(v):
    """the byte stream behind a reader"""
    if v.k == "file":
        return mk("filedata", v.a[0])
    if v.k == "zdec":
        return mk("unz", content(v.a[0]))
    if v.k == "bufr":
        return content(v.a[0])
    if v.k == "rtake":
        return mk("head", content(v.a[0]), v.a[1])
    return mk("stream", v)


def is_reader(v):
    return v.k in ("file", "zdec", "bufr", "rtake")


@model("std::io::Read::take")
def m_rtake(eng, st, c):
    v = W(eng, st, c.args[0])
    if c.args[0].k == "ref" or not is_reader(v) or c.args[1].k != "int":
        return eng.mod.opaque_result(eng, st, c, mk("call", c.path, *c.args))
    return ret(st, mk("rtake", v, c.args[1]))


def read_some(eng, st, c, a, n):
    """read exactly n bytes: outcomes carry ok(bytes) or err"""
    v = W(eng, st, a)
    if not is_reader(v):
        # a byte slice reader: &mut &[u8]
        L = st.norm(length(v))
        out = []
        for s, okv in fork(eng, st, le(n, L)):
            if okv:
                setref(eng, s, a, slice_(v, n, sub(L, n)))
                out.append(("ret", s, ok(slice_(v, ZERO, n))))
            else:
                s.ev("eof", a, c.site)
                out.append(("ret", s, err(mk("eof", v))))
        return out
    pk = ("fpos", target_of(v))
    pos = st.cells.get(pk, ZERO)
    out = fault(eng, st, "fs.read", (v, pos, n), c)
    data = slice_(content(v), pos, n)
    st.ev("op", "fs.read", (v, pos, n), data, c.site)
    st.cells[pk] = add(pos, n)
    out.append(("ret", st, ok(data)))
    return out


@fileop(["std::io::Read::read_exact"], ["tokio::io::AsyncReadExt::read_exact"])
def f_readexact(eng, st, c):
    buf = deref_target(eng, st, c.args[1])
    n = st.norm(length(W(eng, st, buf)))

    def fin(s, v):
        if v.a[1] == 0:
            if buf.k == "ref":
                eng.write_cell(s, buf.a[0], buf.a[1], v.a[2][0])
            else:
                s.taint("read_exact target")
            return ret(s, ok(UNIT))
        return ret(s, v)
    return then(read_some(eng, st, c, c.args[0], n), fin)


@fileop(["std::io::Read::read_to_end"], ["tokio::io::AsyncReadExt::read_to_end"])
def f_readend(eng, st, c):
    v = W(eng, st, c.args[0])
    buf = W(eng, st, c.args[1])
    pk = ("fpos", target_of(v))
    pos = st.cells.get(pk, ZERO)
    out = fault(eng, st, "fs.read", (v,), c)
    whole = content(v)
    rest = sub(length(whole), pos)
    data = slice_(whole, pos, rest)
    st.ev("op", "fs.read", (v, pos, rest), data, c.site)
    st.cells[pk] = length(whole)
    setref(eng, st, c.args[1], cat_(buf, data))
    out.append(("ret", st, ok(rest)))
    return out


@fileop(["std::io::Read::read"], ["tokio::io::AsyncReadExt::read"])
def f_read(eng, st, c):
    v = W(eng, st, c.args[0])
    buf = deref_target(eng, st, c.args[1])
    out = fault(eng, st, "fs.read", (v,), c)
    n = fresh(st, "nread", v)
    RANGE[n] = (0, LENMAX)
    cur = W(eng, st, buf)
    nv = fresh(st, "partial", v)
    if length(cur).k == "int":
        RANGE[n] = (0, length(cur).a[0])
        ALEN[nv] = length(cur).a[0]
    setref(eng, st, buf, nv)
    st.ev("op", "fs.read.partial", (v, n), nv, c.site)
    st.taint("partial read")
    out.append(("ret", st, ok(n)))
    return out


MODELS["std::io::BufReader::new"] = lambda eng, st, c: ret(st, mk("bufr", W(eng, st, c.args[0])))
MODELS["std::io::BufWriter::new"] = lambda eng, st, c: ret(st, mk("bufw", W(eng, st, c.args[0])))


@model("std::io::Error::kind")
def m_kind(eng, st, c):
    return ret(st, mk("iokind", W(eng, st, c.args[0])))


@model("zstd::Encoder::new")
def m_zenc(eng, st, c):
    v = mk("zenc", W(eng, st, c.args[0]))
    return effect(eng, st, "zstd.enc", (c.args[0],), v, c)


@model("zstd::Encoder::finish")
def m_zfin(eng, st, c):
    v = W(eng, st, c.args[0])
    return effect(eng, st, "zstd.finish", (v,), v.a[0] if v.k == "zenc" else v, c)


@model("zstd::Encoder::auto_finish")
def m_zauto(eng, st, c):
    st.ev("autofinish", c.site)
    return ret(st, c.args[0])


@model("zstd::Decoder::new")
def m_zdec(eng, st, c):
    return effect(eng, st, "zstd.dec", (c.args[0],), mk("zdec", W(eng, st, c.args[0])), c)


@model("zstd::Decoder::with_buffer")
def m_zdecb(eng, st, c):
    v = W(eng, st, c.args[0])
    while v.k == "bufr":
        v = v.a[0]
    return effect(eng, st, "zstd.dec", (v,), mk("zdec", v), c)


@model("zstd::stream::copy_encode")
def m_zcopy(eng, st, c):
    v, w = W(eng, st, c.args[0]), mk("zenc", W(eng, st, c.args[1]))
    data = content(v) if is_reader(v) else v
    out = []
    for o in effect(eng, st, "zstd.enc", (w,), w, c):
        if o[2].k == "adt" and o[2].a[1] == 0:
            for p in effect(eng, o[1], "fs.write", (w, data), UNIT, c):
                out.extend(effect(eng, p[1], "zstd.finish", (w,), UNIT, c) if p[2].k == "adt" and p[2].a[1] == 0 else [p])
        else:
            out.append(o)
    return out


@model("zstd::decode_all", "zstd::stream::decode_all")
def m_zall(eng, st, c):
    v = W(eng, st, c.args[0])
    return effect(eng, st, "fs.read", (v,), mk("unz", content(v) if is_reader(v) else v), c)


@model("zstd::encode_all", "zstd::stream::encode_all")
def m_zeall(eng, st, c):
    return effect(eng, st, "zstd.enc", (c.args[0],), mk("zip", W(eng, st, c.args[0])), c)


# ------------------------------------------------------------------ time, spawn
for _n in ("std::time::SystemTime::now", "std::time::Instant::now"):
    MODELS[_n] = lambda eng, st, c: ret(st, fresh(st, "now"))


@model("std::time::SystemTime::duration_since", "std::time::SystemTime::elapsed")
def m_since(eng, st, c):
    s = st.copy()
    return [("ret", st, ok(fresh(st, "passed"))), ("ret", s, err(fresh(s, "clockerr")))]


@model("std::time::Duration::as_secs", "std::time::Duration::as_millis", "std::time::Duration::as_micros",
       "std::time::Duration::as_nanos", "std::time::Duration::subsec_nanos", "std::time::Duration::subsec_millis")
def m_secs(eng, st, c):
    v = W(eng, st, c.args[0])
    r = mk("ticks", c.path.rsplit("::", 1)[1], v)
    RANGE.setdefault(r, (0, (1 << 64) - 1))
    return ret(st, r)


# ------------------------------------------------------------------ cells
MODELS["std::cell::Cell::new"] = lambda eng, st, c: ret(st, c.args[0])
MODELS["std::cell::Cell::into_inner"] = lambda eng, st, c: ret(st, c.args[0])
MODELS["std::cell::RefCell::new"] = MODELS["std::cell::Cell::new"]
MODELS["std::cell::RefCell::into_inner"] = MODELS["std::cell::Cell::new"]
MODELS["std::cell::RefCell::borrow"] = MODELS["std::cell::RefCell::borrow_mut"] = lambda eng, st, c: ret(st, c.args[0])


@model("std::cell::Cell::get")
def m_cellget(eng, st, c):
    return ret(st, W(eng, st, c.args[0]))


@model("std::cell::Cell::set", "std::cell::Cell::replace", "std::cell::RefCell::replace")
def m_cellset(eng, st, c):
    old = W(eng, st, c.args[0])
    setref(eng, st, c.args[0], c.args[1])
    return ret(st, UNIT if c.path.endswith("set") else old)


@model("std::cell::Cell::take", "std::cell::RefCell::take")
def m_celltake(eng, st, c):
    old = W(eng, st, c.args[0])
    if old.k == "adt" and old.a[0] == OPTION:
        setref(eng, st, c.args[0], NONE)
        return ret(st, old)
    return eng.mod.opaque_result(eng, st, c, mk("call", c.path, *c.args))


# ------------------------------------------------------------------ values computed once
CHANGING = {"dbget", "dblen", "dbitem", "lkval", "filedata", "now"}


def _subterms(v):
    from .base import subterms
    return subterms(v)


@model("std::sync::OnceLock::get_or_init", "std::cell::OnceCell::get_or_init", "once_cell::sync::OnceCell::get_or_init")
def m_once(eng, st, c):
    """what the initialiser yields; an earlier call has left something else when it depends on what changes"""
    out = []
    for o in callv(eng, st, c.args[1], [], c):
        out.append(o)
        if o[0] == "ret" and any(getattr(x, "k", None) in CHANGING for x in _subterms(o[2])):
            s = st.copy()
            v = mk("sym", "remembered:%d" % s.ctr)
            s.ctr += 1
            out.append(("ret", s, eng.typed(v, eng.peel(c.dt)) if c.dt is not None else v))
    return out


for _p in ("std::sync::OnceLock::new", "std::cell::OnceCell::new"):
    MODELS[_p] = lambda eng, st, c: ret(st, mk("zst", "once"))
