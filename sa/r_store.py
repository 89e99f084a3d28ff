"""C22 to C25: flushing, reopening, locks across suspension, storage errors."""
from .base import *
from .r_ledger import Effects, LPRIMS, last_field, writes_name, ledger_dbs, resolve_ref, LEDGERS
from .r_num import walk_events
from .r_chain import CHAINS, CPRIMS, chain_roles, public_methods
from . import models as M
from .mcore import ret, W


# ------------------------------------------------------------------ the state a constructor sets up
def constructed(cx, ch):
    """[(outcome, value, config path, was the config read)] of opening a chain"""
    def go():
        fn = cx.need(CHAINS[ch] + "new")
        out = []
        for o in cx.run(fn, prims=CPRIMS):
            if not is_ok(o):
                continue
            v = okval(o)
            opens = [e for e in o[1].events() if e[0] in ("op", "fault") and e[1] == "fs.open"]
            reads = ops(o, "fs.read", "fs.read.partial")
            out.append((o, v, opens, reads))
        if not out:
            cx.undecided("new|" + ch, fn_where(cx.P, fn), "never succeeds")
            raise Undecided("new")
        return out
    return cx.memo(("constructed", ch), go)


def db_fields(cx, ch):
    """names of the fields of a chain that hold stores"""
    o, v, _, _ = constructed(cx, ch)[0]
    return sorted({n[0] for n, x in named_fields(cx.P, v) if x.k == "db" and len(n) == 1})


# ------------------------------------------------------------------ files
class Files:
    """what a sequence of events did to files"""

    def __init__(self, evs):
        self.paths = {}         # path -> record
        self.handles = {}       # handle -> record
        self.order = []
        self.renames = []       # (index, from, to, record)
        self.inplace = []       # events that open an existing path for writing
        for i, e in enumerate(evs):
            if e[0] != "op" or not e[1].startswith("fs."):
                continue
            n, a = e[1], e[2]
            if n == "fs.open":
                fl = [x if isinstance(x, str) else x.a[0] if isinstance(x, V) and x.a else x for x in a[1].a[0]]
                if "write" in fl or "append" in fl:
                    r = {"path": a[0], "data": [], "writes": [], "flush": None, "sync": None, "flags": fl, "event": e, "at": i,
                         "fresh": "truncate" in fl or "create_new" in fl, "partial": []}
                    self.paths[a[0]] = r
                    self.handles[e[3]] = r
                    self.order.append(r)
                continue
            h = a[0]
            while isinstance(h, V) and h.k in ("bufw", "zenc"):
                h = h.a[0]
            r = self.handles.get(h)
            if n == "fs.write" and r:
                asyn = i > 0 and evs[i - 1][0] == "await"
                r["data"].append(a[1])
                r["writes"].append((i, asyn, a[0].k == "bufw", e))
            elif n == "fs.write.partial" and r:
                r["partial"].append((i, e))
            elif n == "fs.flush" and r:
                r["flush"] = i
            elif n == "fs.sync" and r:
                r["sync"] = i
            elif n == "fs.rename" and a[0] is not a[1]:
                r = self.paths.pop(a[0], None)
                self.renames.append((i, a[0], a[1], r, e))
                if r:
                    self.paths[a[1]] = r


def check_config(cx, key, at, evs, st, chain, ch, dbs, prefix_text):
    """the events persist one chain: all stores, then a configuration built aside, synced and renamed into place"""
    good = True
    flushed = {}
    for i, e in enumerate(evs):
        if e[0] == "op" and e[1] == "db.flush":
            flushed.setdefault(e[2][0], i)
            flushed[e[2][0]] = i if e[2][0] not in flushed else flushed[e[2][0]]
    for n in dbs:
        d = fld(chain, n)
        good &= cx.check(d in flushed, "%s|%s|store|%s" % (key, ch, n), at,
                         "%s reports success without flushing the store `%s`" % (prefix_text, n), st)
    fs_ = Files(evs)
    mine = [r for r in fs_.order if chain in subterms(r["path"])]
    rn = [x for x in fs_.renames if x[3] in mine and x[3] is not None]
    if not mine:
        cx.check(False, "%s|%s|config" % (key, ch), at, "%s reports success without writing the configuration" % prefix_text, st)
        return None
    if not rn:
        cx.check(False, "%s|%s|config|inplace" % (key, ch), where(mine[0]["event"]),
                 "the configuration is overwritten in place: a crash while it is written loses the previous one", st)
        r, end, target = mine[-1], len(evs), mine[-1]["path"]
    else:
        end, _, target, r, rev = rn[-1]
        for x in mine:
            if x is not r and x["path"] is target:
                cx.check(False, "%s|%s|config|inplace" % (key, ch), where(x["event"]), "the previous configuration is overwritten", st)
    if not r["writes"]:
        cx.check(False, "%s|%s|config|empty" % (key, ch), where(r["event"]), "an empty configuration replaces the previous one", st)
        return None
    cx.check(r["fresh"], "%s|%s|config|stale" % (key, ch), where(r["event"]),
             "the new configuration file is not truncated: it may start with what an earlier attempt left", st)
    last = max(w[0] for w in r["writes"])
    if any(asyn or buf for _, asyn, buf, _ in r["writes"]):
        cx.check(r["flush"] is not None and last < r["flush"] < end, "%s|%s|config|flush" % (key, ch), where(r["writes"][-1][3]),
                 "the configuration counts as written although its last bytes may still fail to be written", st)
    cx.check(r["sync"] is not None and last < r["sync"] < end, "%s|%s|config|sync" % (key, ch), where(r["writes"][-1][3]),
             "the configuration counts as written although it was not synced", st)
    for i, e in r["partial"]:
        n = e[3]
        if not any(n in subterms(c) for c in list(st.bools) + list(st.lin) + list(st.eqs)):
            cx.bad("%s|%s|config|partial" % (key, ch), where(e), "the configuration may be written only in part")
    return {"data": seq(sum((tuple(as_segs(d)) for d in r["data"]), ())), "path": target, "last": last, "end": end, "flushed": flushed,
            "first": r["writes"][0][0]}


# ------------------------------------------------------------------ C22
@rule("C22")
def c22(cx):
    """every success path of flushing a chain flushes each store the constructor opened, then writes the configuration to a
    fresh file, completes the writes, syncs it and renames it to the path that opening reads; the height it records was read
    before the stores were flushed; flushing the tree does that for the main chain, in a loop for every derivative chain, and
    flushes all balance stores"""
    P = cx.P
    for ch, C in CHAINS.items():
        fn = cx.need(C + "flush")
        at = fn_where(P, fn)
        R = chain_roles(cx, ch)
        dbs = db_fields(cx, ch)
        me = sym(first_name_of(P, fn))
        n = 0
        for o in cx.run(fn, seq_locks=False, prims=CPRIMS):
            if not is_ok(o):
                continue
            n += 1
            evs = o[1].events()
            unchanged(cx, evs, o[1])
            r = check_config(cx, "C22", at, evs, o[1], me, ch, dbs, "flushing the %s chain" % ch)
            if r:
                ahead(cx, ch, at, evs, o[1], r, R)
        cx.check(n > 0, "C22|%s|never" % ch, at, "flushing never succeeds")
        # the path is the one that opening reads
        for o, v, opens, reads in constructed(cx, ch):
            if not opens:
                continue
            for o2 in cx.run(fn, args={0: v}, st=o[1], prims=CPRIMS):
                if is_ok(o2):
                    k = len(o[1].events())
                    fs_ = Files(o2[1].events()[k:])
                    tgt = [x for x in fs_.paths if fs_.paths[x]["writes"]]
                    cx.check(any(same(o2[1], x, opens[0][2][0]) for x in tgt), "C22|%s|path" % ch, at,
                             "the configuration is written to %s but read from %s" % ([show(x, 6) for x in tgt], show(opens[0][2][0], 6)),
                             o2[1], tuple(tgt))
    tree_flush(cx)


def unchanged(cx, evs, st):
    """flushing stores what is there and changes none of it"""
    from .r_ledger import writes_name
    for e in evs:
        if e[0] == "op" and e[1].startswith("db.") and writes_name(e[1]):
            cx.check(False, "C22|changes|" + e[1], where(e), "a flush changes what is stored in %s" % show(e[2][0], 3), st)


def first_name_of(P, fn):
    return P.bodies[fn]["locals"][1].get("name") or "arg0"


def ahead(cx, ch, at, evs, st, r, R):
    """the recorded height was read before the stores were flushed"""
    H = R["height"]
    vals = [x for x in subterms(r["data"]) if x.k == "lkval" and x.a[0] is H]
    if not vals:
        cx.check(False, "C22|%s|height" % ch, at, "the configuration does not contain the height", st, (r["data"],))
        return
    for v in set(vals):
        got = [i for i, e in enumerate(evs) if e[0] == "acquire" and e[1] is H and e[3] is v]
        fl = [r["flushed"][d] for d in (R["blocks"], R["refs"]) if d in r["flushed"]]
        if not got or len(fl) < 2:
            continue
        cx.check(got[0] < min(fl), "C22|%s|ahead" % ch, where(evs[got[0]]),
                 "the recorded height is read after the blocks were flushed: a block appended in between is recorded but not flushed", st)
        cx.check(max(fl) < r["end"], "C22|%s|ahead|order" % ch, at, "the configuration is put in place before the blocks are flushed", st)


def tree_flush(cx):
    P = cx.P
    fn = cx.need(TREE + "flush")
    at = fn_where(P, fn)
    me = sym(first_name_of(P, fn))
    # the stores of the tree
    names = set()
    main = None
    for o in cx.run(TREE + "new", prims=CPRIMS, limit=200):
        if is_ok(o):
            for n, x in named_fields(P, okval(o)):
                if len(n) == 1 and x.k == "db":
                    names.add(n[0])
                if len(n) == 1 and x.k == "adt" and x.a[0].endswith("MainChain"):
                    main = n[0]
    maps = {f for f in derivative_map(cx)}
    n = 0
    for o in cx.run(fn, prims=CPRIMS):
        if not is_ok(o):
            continue
        n += 1
        st = o[1]
        evs = st.events()
        unchanged(cx, evs, st)
        flushed = {e[2][0] for e in evs if e[0] == "op" and e[1] == "db.flush"}
        for d in sorted(names):
            cx.check(fld(me, d) in flushed, "C22|tree|store|" + d, at, "flushing the tree succeeds without flushing `%s`" % d, st)
        if main is None:
            cx.undecided("C22|tree|main", at, "main chain not identified")
        else:
            check_config(cx, "C22|tree", at, evs, st, fld(me, main), "main", db_fields(cx, "main"), "flushing the tree")
        derivative_flush(cx, o, at, me, maps)
    cx.check(n > 0, "C22|tree|never", at, "flushing never succeeds")


def derivative_map(cx):
    """the map of derivative chains: field names that get_derivative_chain looks into"""
    def go():
        out = set()
        for o in cx.run(TREE + "get_derivative_chain", prims=CPRIMS):
            for x in o[1].vars:
                if x.k == "mapget" and x.a[0].k == "fld":
                    out.add(x.a[0].a[1])
        return out
    return cx.memo("derivative_map", go)


def derivative_flush(cx, o, at, me, maps):
    st = o[1]
    for f in maps:
        m = fld(me, f)
        done = False
        for e in st.events():
            if e[0] != "loop":
                continue
            kval, bv, k = e[1]
            els = {x for bt in e[2] for y in bt for t in _terms(y) for x in subterms(t)
                   if x.k == "elem" and x.a[0].k in ("mapvals", "mapitems") and x.a[0].a[0] is m}
            if not els:
                continue
            done = True
            src = list(els)[0].a[0]
            if not same(st, kval, length(src)):
                cx.check(False, "C22|tree|derivative|all", at, "not every derivative chain is flushed (%s of them)" % show(kval, 4), st, (kval,))
                continue
            for bt in e[2]:
                c = [x for y in bt for t in _terms(y) for x in subterms(t) if x in els]
                if not c:
                    cx.check(False, "C22|tree|derivative|skipped", at, "a derivative chain can be left out", st)
                    continue
                x = c[0]
                if x.a[0].k == "mapitems":
                    vals = [z for y in bt for t in _terms(y) for z in subterms(t)
                            if z.k == "fld" and z.a[0] is x and str(z.a[1]) == "1"]
                    x = vals[0] if vals else x
                if not any(y[0] == "op" and y[1] == "db.flush" for y in bt):
                    cx.check(False, "C22|tree|derivative|skipped", at, "a derivative chain can be left out", st)
                    continue
                check_config(cx, "C22|tree", at, bt, st, x, "derivative", db_fields(cx, "derivative"),
                             "flushing the tree")
        if not done:
            ln = collen_term(m)
            if any(st.prove(sub(integer(0), length(mk(k, m)))) for k in ("mapvals", "mapitems", "mapkeys")):
                continue
            cx.check(False, "C22|tree|derivative", at, "flushing the tree does not flush the derivative chains", st)


def collen_term(m):
    return mk("len", m)


def _terms(e):
    for x in e:
        if isinstance(x, V):
            yield x
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, V):
                    yield y


# ------------------------------------------------------------------ C23
@rule("C23")
def c23(cx):
    """opening a chain takes every lock-protected value and the genesis from exactly the bytes that flushing wrote for it;
    starts afresh only on a path on which opening the configuration failed with NotFound; writes nothing when the stored
    height is not zero; opening the tree writes a balance only where none is stored"""
    P = cx.P
    for ch, C in CHAINS.items():
        fn = cx.need(C + "new")
        at = fn_where(P, fn)
        fl = cx.need(C + "flush")
        me = sym(first_name_of(P, fl))
        written = set()
        for o in cx.run(fl, prims=CPRIMS):
            if is_ok(o):
                fs_ = Files(o[1].events())
                for r in fs_.paths.values():
                    if r["writes"]:
                        written.add(seq(sum((tuple(as_segs(d)) for d in r["data"]), ())))
        if len(written) != 1:
            cx.undecided("C23|%s|layout" % ch, at, "%d layouts are written" % len(written))
            continue
        data = written.pop()
        cx.check(length(data).k == "int", "C23|%s|length" % ch, at, "the length of the configuration varies", None, (data,))
        restored = 0
        for o, v, opens, reads in constructed(cx, ch):
            st = o[1]
            for e in ops(o, "fs.read.partial"):
                n = e[2][1]
                if not any(n in subterms(c) for c in list(st.bools) + list(st.lin) + list(st.eqs)):
                    cx.bad("C23|%s|partial" % ch, where(e), "an incomplete configuration is accepted")
            if not reads:
                absent = [e for e in faults(o, "fs.open") if not_found(st, e)]
                tested = ops(o, "fs.exists")
                if not absent and tested:
                    cx.undecided("C23|%s|afresh" % ch, at, "absence established by another test")
                    continue
                cx.check(bool(absent), "C23|%s|afresh" % ch, at,
                         "a chain starts afresh although its configuration was not found to be absent", st)
                continue
            restored += 1
            fd = {x for e in reads for x in subterms(e[3]) if x.k == "filedata"}
            m = {x: data for x in fd}
            for nm, x in named_fields(P, v):
                if len(nm) != 1:
                    continue
                if x.k == "lock":
                    got = subst(initial(o, x), m)
                    want = mk("lkval", fld(me, nm[0]), integer(0))
                elif any(y.k == "filedata" for y in subterms(x)):
                    got = subst(x, m)
                    want = fld(me, nm[0])
                elif any(y is fld(me, nm[0]) for y in subterms(data)):
                    cx.check(False, "C23|%s|%s" % (ch, nm[0]), at, "`%s` is written but not restored: it becomes %s" % (nm[0], show(x, 4)),
                             st, (x,))
                    continue
                else:
                    continue
                changed_ = lock_changed(o, x) if x.k == "lock" else None
                if changed_ is not None and not zero_height(st, o, v, fd):
                    cx.check(False, "C23|%s|%s|changed" % (ch, nm[0]), at, "opening an existing chain changes `%s`" % nm[0], st)
                cx.check(same(st, got, want), "C23|%s|%s" % (ch, nm[0]), at,
                         "after flushing and opening, `%s` is %s" % (nm[0], show(got, 5)), st, (got,))
            for e in walk_events(st.events()):
                if e[0] == "op" and (writes_name(e[1]) and e[1].startswith(("db.", "tx.")) or e[1] in (
                        "fs.write", "fs.remove_file", "fs.remove_dir_all", "fs.rename", "fs.setlen")):
                    if not zero_height(st, o, v, fd):
                        cx.check(False, "C23|%s|writes" % ch, where(e), "opening an existing chain performs %s" % e[1], st)
        cx.check(restored > 0, "C23|%s|never" % ch, at, "a stored configuration is never used")
        cx.ok("C23|%s|resets" % ch, at, "opening leaves a chain with blocks alone")
    tree_open(cx)


def not_found(st, e):
    """the failed operation failed because the file does not exist"""
    return st.variant(mk("iokind", e[3])) == 0


def initial(o, lock):
    """value a lock was created with"""
    return lock.a[0]


def lock_changed(o, lock):
    for e in o[1].events():
        if e[0] == "lockset" and e[1] is lock and not same(o[1], e[2], lock.a[0]):
            return e
    return None


def zero_height(st, o, v, fd):
    """the facts of the path say that the stored height is zero"""
    for c, b in st.bools.items():
        pass
    for f in fd:
        for c in list(st.bools) + list(st.lin) + list(st.eqs):
            for x in subterms(c):
                if x.k == "frombe" and f in subterms(x) and same(st, x, integer(0)):
                    return True
    return False


def tree_open(cx):
    P = cx.P
    fn = cx.need(TREE + "new")
    at = fn_where(P, fn)
    dbs = ledger_dbs(cx)
    for o in cx.run(fn, prims=LPRIMS_CHAIN, limit=200):
        if not is_ok(o):
            continue
        st = o[1]
        v = okval(o)
        fx = Effects(o)
        for lg in LEDGERS:
            d = resolve_ref(P, v, dbs[lg])
            if d is None:
                cx.undecided("C23|tree|" + lg, at, "store not identified")
                continue
            for db, k, val, i, e in fx.writes:
                if db is not d:
                    continue
                g = [x for x in st.vars if x.k == "dbget" and x.a[0] is d and same(st, x.a[1], k)]
                cx.check(any(st.variant(x) == 0 for x in g), "C23|tree|%s|kept" % lg, where(e),
                         "opening a tree overwrites the %s of %s" % (lg, show(k, 3)), st)
            for e in fx.other:
                if e[2] and e[2][0] is d:
                    cx.check(False, "C23|tree|%s|kept" % lg, where(e), "opening a tree performs %s on the %s" % (e[1], lg), st)
        for e in walk_events(st.events()):
            if e[0] == "op" and e[1] in ("fs.remove_dir_all", "fs.remove_file", "fs.rename", "fs.remove_dir"):
                cx.check(False, "C23|tree|removes", where(e), "opening a tree performs %s" % e[1], st)
    cx.ok("C23|tree", at, "opening keeps the balances")


LPRIMS_CHAIN = dict(CPRIMS)


# ------------------------------------------------------------------ all entry points
MODULES = ("chain::", "blockchaintree::", "summary_db::", "tools::", "txpool::", "merkletree::", "block::", "transaction::")


def entries(cx):
    """public functions of the crate"""
    out = []
    for p, b in sorted(cx.P.bodies.items()):
        if "{" in p or not (b.get("pub") or b.get("impl_trait")):
            continue
        q = p.lstrip("<")
        if q.startswith(MODULES) and b.get("locals"):
            out.append(p)
    return out


IO = ("sled::", "std::fs::", "tokio::fs::", "std::io::", "parking_lot::", "zstd::", "std::path::Path::exists")


def entry_runs(cx, fn, **kw):
    def go():
        return cx.run(fn, panics=True, prims=kw.get("prims", CPRIMS), limit=kw.get("limit", 100), steps=3000000)
    return cx.memo(("entry", fn), go)


def reaches(cx, fn, what):
    """does the function's call graph mention an operation with one of these prefixes"""
    P = cx.P
    seen = set()
    work = [fn]
    while work:
        p = work.pop()
        if p in seen or p not in P.bodies:
            continue
        seen.add(p)
        for q in called(P, p):
            if q.startswith(what):
                return True
            work.append(q)
    return False


_called = {}


def called(P, p):
    r = _called.get((id(P), p))
    if r is None:
        r = set()
        work = [P.bodies[p]["blocks"]] + [q["blocks"] for q in P.bodies[p].get("promoted", ())]
        while work:
            x = work.pop()
            if isinstance(x, dict):
                if isinstance(x.get("path"), str):
                    r.add(x["path"])
                work.extend(x.values())
            elif isinstance(x, (list, tuple)):
                work.extend(x)
        for q in list(r):
            t, _, m = q.rpartition("::")
            for _, impl in P.implmap.get((t, m), ()):
                r.add(impl)
        _called[(id(P), p)] = r
    return r


@rule("C24")
def c24(cx):
    """at every suspension point reached from any public operation no lock guard is alive; no path acquires a lock whose
    guard it already holds; the order in which different locks are nested is acyclic"""
    P = cx.P
    edges = {}
    n = aw = 0
    for fn in entries(cx):
        if not reaches(cx, fn, ("parking_lot", "std::sync::Mutex", "std::sync::RwLock", "std::sync::poison")):
            continue
        try:
            outs = entry_runs(cx, fn)
        except Undecided:
            continue
        n += 1
        for o in outs:
            held = []
            for e in walk_events(o[1].events()):
                if e[0] == "await":
                    aw += 1
                    if e[2]:
                        cx.check(False, "C24|%s|await" % fn, where(e), "suspended at %s while the lock %s is held"
                                 % (e[1], ", ".join(show(g.a[0], 4) for g in e[2])), o[1])
                elif e[0] == "reacquire":
                    cx.check(False, "C24|%s|twice" % fn, where(e), "the lock %s is acquired although it is held" % show(e[1], 4), o[1])
                elif e[0] == "acquire":
                    for h in held:
                        if h is not e[1]:
                            edges.setdefault(field_name(h), {})[field_name(e[1])] = where(e)
                    held.append(e[1])
                elif e[0] == "release":
                    if e[1] in held:
                        held.remove(e[1])
        cx.ok("C24|" + fn, fn_where(P, fn), "no lock is held across a suspension")
    for a in edges:
        for b in list(edges[a]):
            seen, work = set(), [b]
            while work:
                x = work.pop()
                if x == a:
                    cx.bad("C24|order|%s|%s" % (a, b), edges[a][b], "the locks %s and %s are acquired in both orders" % (a, b))
                    break
                if x not in seen:
                    seen.add(x)
                    work.extend(edges.get(x, ()))
    cx.ok("C24|order", "", "%d nestings of different locks" % sum(map(len, edges.values())))


def field_name(v):
    return v.a[1] if v.k == "fld" else show(v, 3)


# ------------------------------------------------------------------ C25
NOT_FOUND, ALREADY_EXISTS = 0, 12           # std::io::ErrorKind
BENIGN = {"fs.remove_dir_all": NOT_FOUND, "fs.remove_file": NOT_FOUND, "fs.remove_dir": NOT_FOUND, "fs.create_dir": ALREADY_EXISTS,
          "fs.create_dir_all": ALREADY_EXISTS}


@rule("C25")
def c25(cx):
    """for every database and file operation on every path of every public function of the chains, the tree, the funds store
    and the file helpers, the path on which it fails ends in an error (an absent configuration excepted) and never in a
    success, a panic, or a further loop iteration"""
    P = cx.P
    n = 0
    for fn in entries(cx):
        if not fn.lstrip("<").startswith(("chain::", "blockchaintree::", "summary_db::", "tools::")):
            continue
        if not reaches(cx, fn, ("sled::", "std::fs", "tokio::fs", "std::io", "tokio::io", "zstd")):
            continue
        at = fn_where(P, fn)
        try:
            outs = entry_runs(cx, fn)
        except Undecided:
            continue
        for o in outs:
            st = o[1]
            evs = st.events()
            for i, e in enumerate(evs):
                if e[0] == "loop":
                    for bt in e[2]:
                        for j, x in enumerate(bt):
                            if x[0] == "fault" and not excused(st, x, bt[j + 1:]):
                                cx.check(False, "C25|%s|%s" % (short(fn), x[1]), where(x),
                                         "a failing %s in a loop of %s is ignored" % (x[1], short(fn)),
                                         None if only_positions_unknown(st) else st)
                if e[0] != "fault" or excused(st, e, evs[i + 1:]):
                    continue
                n += 1
                k = "C25|%s|%s|%s" % (short(fn), e[1], store_name(e))
                if o[0] == "panic":
                    cx.violated(k + "|panic", where(e), "a failing %s crashes %s: %s" % (e[1], short(fn), o[2][0]), st)
                elif is_err(o):
                    cx.ok(k, where(e), "reported")
                elif is_ok(o) or o[0] == "ret":
                    if o[2].k == "vf" and e[3] in subterms(o[2]) or o[2].k not in ("adt",) and e[3] in subterms(o[2]):
                        cx.undecided(k, where(e), "result %s" % show(o[2], 3))
                    elif st.unk and only_positions_unknown(st) and witness(st) is not None:
                        cx.check(False, k, where(e), "a failing %s is not reported by %s" % (e[1], short(fn)))
                    else:
                        cx.violated(k, where(e), "a failing %s is not reported by %s" % (e[1], short(fn)), st)
    cx.check(n > 0, "C25|none", "", "no storage operation was found")


def only_positions_unknown(st):
    """nothing but the position in a sequence of entries is imprecise on this path, so that no decision on it can depend on a
    remembered failure"""
    if not all(t.startswith("loop:") for t in st.unk):
        return False
    return not any(vague(c) for c in list(st.bools) + list(st.vars) + list(st.eqs) + list(st.lin) if c.k != "hasitem")


def short(fn):
    return fn.split("::", 1)[1] if fn.startswith(("chain::", "blockchaintree::", "summary_db::")) else fn


def store_name(e):
    a = e[2][0] if isinstance(e[2], tuple) and e[2] else None
    return last_field(a) or "" if isinstance(a, V) else ""


def excused(st, e, rest):
    """an absent configuration, or an operation that is repeated until it succeeds"""
    if e[1] == "fs.open" and e[2][1].k == "flags" and "read" in str(e[2][1].a) and not_found(st, e):
        return True
    if e[1] in BENIGN:
        kind = mk("iokind", e[3])
        if st.variant(kind) == BENIGN[e[1]] or any(x[0] == "kind" and x[1] is kind and x[2] == BENIGN[e[1]] for x in rest):
            return True
    again = ("fs.create_dir_all",) if e[1] == "fs.create_dir" else ()
    return any(x[0] == "op" and (x[1] == e[1] or x[1] in again) and x[2] == e[2] for x in rest)
